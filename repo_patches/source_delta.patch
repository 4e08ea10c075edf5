From 3e02dcbdb16d3a29e95ab0a0656654c2f726907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 01/39] fix: LineSearchGD scales Armijo's required decrease
 with the tried step size

---
 neural_network_lyapunov/line_search_gd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 2b92b80..0b1df16 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -118,7 +118,7 @@ class LineSearchGD(Optimizer):
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
                                              (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + t * increment and \
+            if loss <= loss0 + alpha * t * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
-- 
2.43.0


From dfc370236dde3fc4c01ccefea6ba631f1bd1282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 02/39] fix: read position and velocity of every joint in
 PybulletSampleGenerator

---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..0c68386 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -225,8 +225,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From df1faef04551de0ea24added6beb8d56f19ad788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 03/39] fix: show_sample clamps the next image to [0, 1]

---
 neural_network_lyapunov/pybullet_data_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 0c68386..ac004cb 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -19,7 +19,7 @@ def show_sample(X_sample, X_next_sample=None, clamp=False):
     if clamp:
         X_sample = torch.clamp(X_sample, 0, 1)
         if X_next_sample is not None:
-            X_next_sample = torch.clamp(X_next_sample)
+            X_next_sample = torch.clamp(X_next_sample, 0, 1)
     if X_sample.shape[0] == 6:
         num_channels = 3
         cmap = None
-- 
2.43.0


From 178673e8dfbbeea789df837b52332338e658e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 04/39] fix: max_as_mixed_integer_constraint accepts exactly
 one never-maximal entry

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..e41bbfb 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -104,7 +104,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).squeeze(1).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From 34d131c99963039cad7620d609eb054e7edbdb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 05/39] fix: concatenating constraints stacks the second set's
 binary bounds with its own size

---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..5a1e30c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -341,7 +341,7 @@ def concatenate_mixed_integer_constraints(
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
         num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
+        num_binary2 = cnstr2.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From 194a0b6c431e9383522479eb8d19307d907dc5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 06/39] fix: add_mixed_integer_linear_constraints creates
 slack/binary variables that only the output uses

---
 neural_network_lyapunov/gurobi_torch_mip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5a1e30c..ad31096 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -736,6 +736,8 @@ class GurobiTorchMIP:
             slack_size = mip_cnstr_return.Ain_slack.shape[1]
         elif mip_cnstr_return.Aeq_slack is not None:
             slack_size = mip_cnstr_return.Aeq_slack.shape[1]
+        elif mip_cnstr_return.Aout_slack is not None:
+            slack_size = mip_cnstr_return.Aout_slack.shape[1]
         elif mip_cnstr_return.slack_lo is not None:
             slack_size = mip_cnstr_return.slack_lo.numel()
         elif mip_cnstr_return.slack_up is not None:
@@ -756,6 +758,8 @@ class GurobiTorchMIP:
             binary_size = mip_cnstr_return.Ain_binary.shape[1]
         elif mip_cnstr_return.Aeq_binary is not None:
             binary_size = mip_cnstr_return.Aeq_binary.shape[1]
+        elif mip_cnstr_return.Aout_binary is not None:
+            binary_size = mip_cnstr_return.Aout_binary.shape[1]
         elif mip_cnstr_return.binary_lo is not None:
             binary_size = mip_cnstr_return.binary_lo.numel()
         elif mip_cnstr_return.binary_up is not None:
-- 
2.43.0


From 99805905320ebbec301e22140f231264cd99202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 07/39] fix: transform_input does not write into tensors shared
 with other constraint sets

---
 neural_network_lyapunov/gurobi_torch_mip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index ad31096..ca0e38a 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -137,14 +137,14 @@ class MixedIntegerConstraintsReturn:
             Aout_input * b + Cout.
         """
         if self.Ain_input is not None:
-            self.rhs_in -= self.Ain_input @ b
+            self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
         if self.Aeq_input is not None:
-            self.rhs_eq -= self.Aeq_input @ b
+            self.rhs_eq = self.rhs_eq - self.Aeq_input @ b
             self.Aeq_input = self.Aeq_input @ A
         if self.Aout_input is not None:
             if self.Cout is not None:
-                self.Cout += self.Aout_input @ b
+                self.Cout = self.Cout + self.Aout_input @ b
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-- 
2.43.0


From 63190962ee1320f142453e13f328c9818ffd8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 08/39] fix: GurobiTorchMIQP recomputes the cost with the mixed
 and asymmetric quadratic terms

---
 neural_network_lyapunov/gurobi_torch_mip.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index ca0e38a..41e8d39 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1309,17 +1309,17 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ ]
-        [ A_act,   0 ]   [λ]   [b_act]
+        [Qᵣ+Qᵣᵀ, A_actᵀ] * [r] = [ -cᵣ - Q_rzeta*ζ ]
+        [ A_act,     0 ]   [λ]   [      b_act      ]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,   0 ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
+        [λ]   [ A_act,     0 ]     [      b_act      ]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,       εI ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ + εI, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
+        [λ]   [ A_act,         εI ]     [      b_act      ]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
         function of the MIQP data.
@@ -1334,13 +1334,14 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T + penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From 685d68644e1c8b31783b2a172e49f6c30300e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:45 +0000
Subject: [PATCH 09/39] fix: linear_program_cost takes the active rows one by
 one

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index e41bbfb..59baa2a 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -888,7 +888,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


From 70f05ef16ad21c0bac5dfcb44ba31f15b63ac151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 10/39] fix: sampling discrete-time costs-to-go skips
 trajectories that leave the domain

---
 neural_network_lyapunov/hybrid_linear_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..41b8896 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -698,7 +698,10 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise AutonomousHybridLinearSystem.StepForwardException(
+                "compute_discrete_time_system_cost_to_go(): the trajectory " +
+                "leaves the domain of the system.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost += cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From cfb515c8b595023560e56bca2127451555738d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 11/39] fix: the discrete-time cost-to-go does not overwrite
 the stage cost's return value

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 41b8896..87b5c9b 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -703,7 +703,7 @@ def compute_discrete_time_system_cost_to_go(system,
                 "compute_discrete_time_system_cost_to_go(): the trajectory " +
                 "leaves the domain of the system.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
-        total_cost += cost_steps[i + 1]
+        total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
     x_steps = torch.stack(x_steps[:terminal_step + 1], axis=1)
     costs = torch.stack([
-- 
2.43.0


From 337b145c523acf155f99e4be2ab1ca76d8e4db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 12/39] fix: l1_gradient takes both sides of a single entry
 within zero_tol

---
 neural_network_lyapunov/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 59baa2a..5d307a4 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1437,20 +1437,20 @@ def l1_gradient(x: torch.Tensor,
 
     if not torch.any(torch.abs(x) <= zero_tol):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(torch.abs(x) <= zero_tol) == 1:
+        zero_mask = torch.abs(x) <= zero_tol
         s = torch.sign(x)
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[zero_mask] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[zero_mask] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
-                              zero_tol] = subgradient_samples[i]
+                s_subgradient[zero_mask] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
     else:
-- 
2.43.0


From 372dab7edf7498e1c09ce40c6e3190ba8aa2997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 13/39] fix: Lyapunov networks with a single hidden unit can be
 encoded

---
 neural_network_lyapunov/lyapunov.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..384d726 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -86,7 +86,7 @@ class LyapunovHybridLinearSystem:
         relu_z, relu_beta = milp.add_mixed_integer_linear_constraints(
             mip_constr_return, x, None, slack_name, binary_var_name,
             "milp_relu_ineq", "milp_relu_eq", "", binary_var_type)
-        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(),
+        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(0),
                 mip_constr_return.Cout.squeeze(), mip_constr_return)
 
     def add_state_error_l1_constraint(self,
@@ -213,7 +213,7 @@ class LyapunovHybridLinearSystem:
         # = a_out * z + b_out - ϕ(x*) + λ * s
         relu_at_equilibrium = self.lyapunov_relu.forward(x_equilibrium)
         V_coeff = [
-            a_out.squeeze(0), V_lambda * torch.ones(
+            a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=self.system.dtype)
         ]
         V_vars = [z, s]
@@ -294,7 +294,7 @@ class LyapunovHybridLinearSystem:
         # Now set the objective as -ϕ(x) + ϕ(x*) + (ε-λ)*|R(x−x*)|₁
         # = -a_out * z - b_out +  ϕ(x*) + (ε-λ) * s
         milp.setObjective([
-            -a_out.squeeze(), (V_epsilon - V_lambda) * torch.ones(
+            -a_out, (V_epsilon - V_lambda) * torch.ones(
                 (len(s), ), dtype=dtype)
         ], [z, s],
                           constant=-b_out + relu_at_equilibrium.squeeze(),
@@ -473,7 +473,7 @@ class LyapunovHybridLinearSystem:
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
@@ -1252,7 +1252,7 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
-- 
2.43.0


From 1676a23cddf09de26c22d2291b7266804f2fe2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 14/39] fix: the region of attraction accounts for successors
 that leave the box through a corner

---
 neural_network_lyapunov/lyapunov.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 384d726..896e22e 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1178,9 +1178,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # x_lo_larger <= x <= x_up_larger.
         # This region could be written as the union of boxes
         # box i: x_up(i) <= x(i) <= x_up_larger(i)
-        #        x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # box x_dim + i: x_lo_larger(i) <= x(i) <= x_lo(i)
-        #                       x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #                x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # If we denote the bounds for the i'th box as
         # x_box_lo_i <= x <= x_box_up_i
         # We need to introduce 2 * x_dim binary variables ζ to determine in
@@ -1204,14 +1204,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                       lb=-gurobipy.GRB.INFINITY,
                                       vtype=gurobipy.GRB.CONTINUOUS,
                                       name=f"t_slack[{i}]")
-            x_box_lo_i = torch.from_numpy(self.system.x_lo_all).clone()
-            x_box_up_i = torch.from_numpy(self.system.x_up_all).clone()
+            x_box_lo_i = torch.as_tensor(x_lo_larger, dtype=dtype).clone()
+            x_box_up_i = torch.as_tensor(x_up_larger, dtype=dtype).clone()
             if i < self.system.x_dim:
                 x_box_lo_i[i] = self.system.x_up_all[i]
-                x_box_up_i[i] = x_up_larger[i]
             else:
-                x_box_lo_i[i - self.system.x_dim] = \
-                    x_lo_larger[i-self.system.x_dim]
                 x_box_up_i[i-self.system.x_dim] = \
                     self.system.x_lo_all[i-self.system.x_dim]
             # Now add the constraint
-- 
2.43.0


From 756ccb0bb8a527e12a0b8a3957059b138fb355c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 15/39] fix: the continuous-time hybrid derivative loss ignored
 the sample weights

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..edf73e9 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -1260,5 +1260,10 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
                    torch.norm(state_samples - x_equilibrium, p=1, dim=1))
         else:
             raise Exception("Unknown eps_type")
-        return torch.nn.HingeEmbeddingLoss(margin=margin)(-val,
-                                                          torch.tensor(-1))
+        hinge_loss_all = torch.nn.HingeEmbeddingLoss(
+            margin=margin, reduction="none")(-val, torch.tensor(-1))
+        if weight is None:
+            return torch.mean(hinge_loss_all)
+        else:
+            assert (weight.shape == (num_samples, ))
+            return torch.mean(weight * hinge_loss_all)
-- 
2.43.0


From 2598290494443c1b339be3d3ce455fd6f62fb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 16/39] fix: continuous-time hybrid lyapunov_derivative failed
 for a one-dimensional state

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index edf73e9..73d28d4 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -390,8 +390,8 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
         for i in range(len(dReLU_dx_all)):
             for j in range(len(state_error_grad)):
                 dV_dx[i * len(state_error_grad) + j] = \
-                    dReLU_dx_all[i].squeeze() + \
-                    V_lambda * state_error_grad[j].squeeze()
+                    dReLU_dx_all[i].reshape((-1, )) + \
+                    V_lambda * state_error_grad[j]
         Vdot_all = [None] * (len(dV_dx) * len(xdot_all))
         for i in range(len(dV_dx)):
             for j in range(len(xdot_all)):
-- 
2.43.0


From 630bfa387442630c904cb8c2295a817834d1c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 17/39] fix: continuous-time lyapunov_derivative failed for
 R=None

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 73d28d4..22d9834 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -54,6 +54,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         Due to the non-uniqueness of the gradient dV/dx, there might be
         multiple V̇(x) + εV(x). We return a list of all the values.
         """
+        R = lyapunov._get_R(R, self.system.x_dim, x_equilibrium.device)
         dVdx = self._lyapunov_gradient(x,
                                        x_equilibrium,
                                        V_lambda,
-- 
2.43.0


From 3b0bae70e10e50a70f0940802a32dd0b9e231d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 18/39] fix: the relaxed continuous-time derivative program
 could not be built

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 2 +-
 neural_network_lyapunov/gurobi_torch_mip.py         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 22d9834..b759748 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -100,7 +100,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         # Adds the mixed-integer constraints to compute V(x).
         relu_slack, relu_binary, relu_a_out, relu_b_out,\
             relu_output_mip_cnstr_ret = self.add_lyap_relu_output_constraint(
-                milp, x)
+                milp, x, binary_var_type=binary_var_type)
 
         l1_slack, l1_binary = self.add_state_error_l1_constraint(
             milp,
diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 41e8d39..1086359 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -777,7 +777,10 @@ class GurobiTorchMIP:
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
                 assert (len(binary) == binary_size)
-                assert (all((v.vtype == binary_var_type for v in binary)))
+                # A relaxed binary variable is stored as a continuous variable.
+                expected_vtype = gurobipy.GRB.CONTINUOUS if \
+                    binary_var_type == BINARYRELAX else binary_var_type
+                assert (all((v.vtype == expected_vtype for v in binary)))
         else:
             binary = []
 
-- 
2.43.0


From 7da50642b116f13b4448b8aecc96f5babdeca2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 19/39] fix: second-order control-affine systems with an input
 matrix affine in the state

The zero rows for the positions had nq columns instead of x_dim, so the
constraints of such a system could not be built.
---
 neural_network_lyapunov/control_affine_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/control_affine_system.py b/neural_network_lyapunov/control_affine_system.py
index 79382d9..5354582 100644
--- a/neural_network_lyapunov/control_affine_system.py
+++ b/neural_network_lyapunov/control_affine_system.py
@@ -215,7 +215,7 @@ class SecondOrderControlAffineSystem(ControlPiecewiseAffineSystem):
                     field]
         if mip_cnstr_b_flat.Aout_input is not None:
             ret.mip_cnstr_G.Aout_input = torch.vstack(
-                (torch.zeros((self.nq * self.u_dim, self.nq),
+                (torch.zeros((self.nq * self.u_dim, self.x_dim),
                              dtype=self.dtype), mip_cnstr_b_flat.Aout_input))
         if mip_cnstr_b_flat.Aout_slack is not None:
             ret.mip_cnstr_G.Aout_slack = torch.vstack((torch.zeros(
-- 
2.43.0


From 2cf991ecfbc8a7c5f271148b7fa5320e6f7ef8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 20/39] fix: SearchRwithSPDOptions.extract_params reads
 attributes that exist

---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..a2f7ff4 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self.variables()
         }
 
 
-- 
2.43.0


From d765663d7178de9cf26e10061eca57edd2bcdc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 21/39] fix: R options do not share memory with the arrays
 given to them

Optimizing the variables overwrote the caller's matrix (for example the
R tensor passed as R.detach().numpy()).
---
 neural_network_lyapunov/r_options.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index a2f7ff4..e8aeb3d 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -75,7 +75,7 @@ class SearchRwithSPDOptions(ROptions):
     def set_variable_value_directly(self, variable_val: np.ndarray):
         assert (isinstance(variable_val, np.ndarray))
         assert (variable_val.shape == self._variables.shape)
-        self._variables = torch.from_numpy(variable_val)
+        self._variables = torch.from_numpy(variable_val.copy())
         self._variables.requires_grad = True
 
     def R(self):
@@ -178,7 +178,7 @@ class SearchRwithSVDOptions(ROptions):
     def set_variable_value_directly(self, variable_val: np.ndarray):
         assert (isinstance(variable_val, np.ndarray))
         assert (variable_val.shape == (np.min(self.R_size), ))
-        self._variables = torch.from_numpy(variable_val)
+        self._variables = torch.from_numpy(variable_val.copy())
         self._variables.requires_grad = True
 
     def R(self):
@@ -232,13 +232,13 @@ class SearchRfreeOptions(ROptions):
     def set_variable_value(self, R_val: np.ndarray):
         assert (isinstance(R_val, np.ndarray))
         assert (R_val.shape == self.R_size)
-        self._variables = torch.from_numpy(R_val)
+        self._variables = torch.from_numpy(R_val.copy())
         self._variables.requires_grad = True
 
     def set_variable_value_directly(self, variable_val: np.ndarray):
         assert (isinstance(variable_val, np.ndarray))
         assert (variable_val.shape == self.R_size)
-        self._variables = torch.from_numpy(variable_val)
+        self._variables = torch.from_numpy(variable_val.copy())
         self._variables.requires_grad = True
 
     def R(self):
-- 
2.43.0


From 518307213863101d62ea5bc1160f354da4d880c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 22/39] fix: return an empty tensor when the barrier derivative
 MIP has no counterexample

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..e3a8907 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -583,7 +583,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From 2d79ea472d2089e90af125b82dd171e8f8f80f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 23/39] fix: detach the successors of the sample pool in
 Trainer.train (backward through a freed graph)

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index e3a8907..6ac86ec 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -905,7 +905,7 @@ class Trainer:
                     derivative_state_samples[i])
                 for i in range(derivative_state_samples.shape[0])
             ],
-                                                        dim=0)
+                                                        dim=0).detach()
         else:
             derivative_state_samples_next = torch.empty_like(state_samples_all)
         iter_count = 0
@@ -950,8 +950,9 @@ class Trainer:
                 total_loss_return.lyap_loss.positivity_state_samples
             derivative_state_samples = \
                 total_loss_return.lyap_loss.derivative_state_samples
-            derivative_state_samples_next = \
-                total_loss_return.lyap_loss.derivative_state_samples_next
+            # Do not keep the graph of this iteration, it is freed by backward().
+            derivative_state_samples_next = total_loss_return.lyap_loss.\
+                derivative_state_samples_next.detach()
 
             if self.enable_wandb:
                 wandb.log({
-- 
2.43.0


From 6d5a40c6c8a33592adab1ec4416e5d000044a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 24/39] fix: keep the R variable trainable when restoring
 training parameters

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 6ac86ec..0803d37 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1117,7 +1117,7 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = self.R_options._variables.detach().clone()
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1132,7 +1132,10 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Copy in place, so that the variable remains the leaf tensor that
+            # the optimizers hold.
+            with torch.no_grad():
+                self.R_options._variables.copy_(params["R_params"])
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From efbabc3892e7f379fe38f4fcfa5c69f0f423c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 25/39] fix: repetitions of two clusters of adversarial states

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 0803d37..abbd9e8 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1484,8 +1484,9 @@ def _cluster_adversarial_states(adversarial_states, cluster_radius):
             1)[states_distance_squared > cluster_radius**2] + 1
         repeatition = new_adversarial_state_index[1:] - \
             new_adversarial_state_index[:-1]
-        if repeatition.shape == (0, ):
-            repeatition = torch.tensor([adversarial_states.shape[0]])
+        if new_adversarial_state_index.shape == (0, ):
+            repeatition = torch.tensor([adversarial_states.shape[0]],
+                                       dtype=adversarial_states.dtype)
         else:
             repeatition = torch.cat(
                 (torch.tensor([new_adversarial_state_index[0]],
-- 
2.43.0


From 6f966a20c7efd0cbbc97ac98ec9b1e1067d5aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 26/39] fix: restore the best R in train_lyapunov_on_samples

---
 neural_network_lyapunov/train_lyapunov_barrier.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index abbd9e8..4919bde 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1075,6 +1075,9 @@ class Trainer:
                               feedback_system.FeedbackSystem):
                     best_controller_relu = copy.deepcopy(
                         self.lyapunov_hybrid_system.system.controller_network)
+                best_R_variables = [
+                    v.detach().clone() for v in self.R_options.variables()
+                ]
 
         print(f"best loss {best_loss}")
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
@@ -1083,6 +1086,10 @@ class Trainer:
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
                 load_state_dict(best_controller_relu.state_dict())
+        with torch.no_grad():
+            for v, best_v in zip(self.R_options.variables(),
+                                 best_R_variables):
+                v.copy_(best_v)
 
     class AdversarialTrainingOptions:
         def __init__(self):
-- 
2.43.0


From f0a0764cc6f9e3438f4b395c1e13ba6fd6c04114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 27/39] fix: mean squared image loss counts every item of the
 batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..0593c8f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -778,7 +778,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From 0605a0958e4940742bce38e08481918f44a596f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 28/39] fix: roll-out cross entropy takes the prediction as
 prediction

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0593c8f..b7ea699 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -883,8 +883,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From 57447ba4c866d5e1d6c535f7a25a110a4be14a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 29/39] fix: latent roll-outs work with a one-dimensional
 latent space

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index b7ea699..dcb763e 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -835,7 +835,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         V_traj = []
         z_traj.append(self.encoder(x_init.unsqueeze(0))[0])
         V_traj.append(
-            self.lyap.lyapunov_value(z_traj[-1].squeeze(),
+            self.lyap.lyapunov_value(z_traj[-1].squeeze(0),
                                      self.lyap.system.x_equilibrium,
                                      self.opt.V_lambda,
                                      R=self.opt.R).item())
@@ -847,7 +847,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z.squeeze(),
+                            z.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
@@ -862,7 +862,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
                     z_traj.append(z_next)
                     V_traj.append(
                         self.lyap.lyapunov_value(
-                            z_next.squeeze(),
+                            z_next.squeeze(0),
                             self.lyap.system.x_equilibrium,
                             self.opt.V_lambda,
                             R=self.opt.R).item())
-- 
2.43.0


From f4ac0ee9f7e7a7a9062246ea914c81f5e18c63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 30/39] fix: adversarial_samples returns empty sets when
 nothing is violated

---
 neural_network_lyapunov/dynamics_learning.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index dcb763e..bcbda04 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -100,6 +100,16 @@ class DynamicsLearning:
         self.lyap.system.x_equilibrium = self.lyap.system.x_equilibrium.to(
             device)
 
+    def _stack_samples(self, samples):
+        """
+        @param samples list of tensors [1, x/z_dim], possibly empty
+        @return tensor [num_samples, x/z_dim]
+        """
+        if len(samples) == 0:
+            return torch.zeros((0, self.lyap.system.x_dim),
+                               dtype=self.opt.dtype)
+        return torch.cat(samples, dim=0)
+
     def adversarial_samples(self):
         """
         computes states the lead to violations of the lyapunov conditions
@@ -130,8 +140,7 @@ class DynamicsLearning:
                 z_adv_pos.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_pos) > 0:
-            z_adv_pos = torch.cat(z_adv_pos, dim=0)
+        z_adv_pos = self._stack_samples(z_adv_pos)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -158,8 +167,7 @@ class DynamicsLearning:
                 z_adv_der.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_lo = torch.cat(z_adv_der, dim=0)
+        z_adv_der_lo = self._stack_samples(z_adv_der)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -186,8 +194,7 @@ class DynamicsLearning:
                 z_adv_der.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_up = torch.cat(z_adv_der, dim=0)
+        z_adv_der_up = self._stack_samples(z_adv_der)
 
         return z_adv_pos, z_adv_der_lo, z_adv_der_up
 
-- 
2.43.0


From 6e155ce3656d0fdc11c88e7f949b857f6e2784fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 31/39] fix: losses at samples outside the box are scalars like
 the others

---
 neural_network_lyapunov/dynamics_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index bcbda04..717cf8b 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -343,11 +343,11 @@ class DynamicsLearning:
         x = x_all[torch.all(x_all <= x_up.to(x_all.device), dim=1), :]
         x = x[torch.all(x >= x_lo.to(x_all.device), dim=1), :]
         if x.shape[0] == 0:
-            sample_pos_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_pos_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_lo_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_lo_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
-            sample_der_up_loss = torch.zeros(1, dtype=self.opt.dtype).to(
+            sample_der_up_loss = torch.zeros((), dtype=self.opt.dtype).to(
                 x_all.device)
             return sample_pos_loss, sample_der_lo_loss, sample_der_up_loss
         x_next = self.lyap.system.step_forward(x)
-- 
2.43.0


From 6dc8d754a583c60d5c42bd5baf7ea7719e7c48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 32/39] fix: rollout_validation returns the mean over the
 roll-outs

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 717cf8b..e76b500 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -387,7 +387,7 @@ class DynamicsLearning:
                 rollout_expected = rollout_expected.to(device)
                 validation_loss += self.rollout_loss(rollout_expected)
         self.all_to_device('cpu')
-        validation_loss = validation_loss.to('cpu')
+        validation_loss = validation_loss.to('cpu') / len(rollouts)
         return validation_loss
 
     def log(self, name, value):
-- 
2.43.0


From af9b72d612836c3906f3b1496753fcb8c9f1387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 33/39] fix: SLIP simulation does not go back in time after a
 downward liftoff

---
 neural_network_lyapunov/spring_loaded_inverted_pendulum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_network_lyapunov/spring_loaded_inverted_pendulum.py b/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
index 5a3fa9c..eed729a 100644
--- a/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
+++ b/neural_network_lyapunov/spring_loaded_inverted_pendulum.py
@@ -276,6 +276,12 @@ class SLIP:
                 break
             x_post_lo = self.liftoff_transition(sol_step_stance.y[:, -1])
             t_post_lo = sol_step_stance.t[-1]
+            if x_post_lo[3] <= 0:
+                # The robot is already descending when it lifts off, so there
+                # is no apex ahead. The next flight phase starts from here.
+                x_step_start = x_post_lo
+                t_step_start = t_post_lo
+                continue
             # The ascending phase, compute the next apex state.
             t_lo_to_apex = x_post_lo[3] / self.g
             next_apex_pos_x = x_post_lo[0] + x_post_lo[2] * t_lo_to_apex
-- 
2.43.0


From b6df0c07c4b2a83bae36ee6ba4ac5671b58f6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 34/39] fix: linear approximation of the apex map takes scalars
 from the leg angle gradients

---
 neural_network_lyapunov/slip_hybrid_linear_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neural_network_lyapunov/slip_hybrid_linear_system.py b/neural_network_lyapunov/slip_hybrid_linear_system.py
index 3ca0eb6..05a95a3 100644
--- a/neural_network_lyapunov/slip_hybrid_linear_system.py
+++ b/neural_network_lyapunov/slip_hybrid_linear_system.py
@@ -62,6 +62,8 @@ class SlipHybridLinearSystem:
                            apex_state[2]]), leg_angle)
         if A is None:
             return None, None, None, None, None, None, None, None
+        dx_pre_td_dleg_angle = np.reshape(dx_pre_td_dleg_angle, (-1, ))
+        dx_post_lo_dleg_angle = np.reshape(dx_post_lo_dleg_angle, (-1, ))
         c = c.reshape((3, 1))
         c += -A.dot(apex_state.reshape((3, 1))) - B * leg_angle +\
             np.array([[0], [stepping_stone.height], [0]])
-- 
2.43.0


From 5c31be1b4ae9dbcb654a065af04900aa207da136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 35/39] fix: continuity constraint has one row per common
 vertex

---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From 0e0e5631c7765a5a166a2f3199685c49ed47ee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 36/39] fix: update_relu_params copies the parameters instead
 of sharing their memory

---
 neural_network_lyapunov/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 5d307a4..9a826a0 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1004,13 +1004,13 @@ def update_relu_params(relu, params: torch.Tensor):
         if isinstance(layer, torch.nn.Linear):
             layer.weight.data = params[params_count:params_count +
                                        layer.in_features *
-                                       layer.out_features].reshape(
+                                       layer.out_features].clone().reshape(
                                            (layer.out_features,
                                             layer.in_features))
             params_count += layer.in_features * layer.out_features
             if layer.bias is not None:
                 layer.bias.data = params[params_count:params_count +
-                                         layer.out_features]
+                                         layer.out_features].clone()
                 params_count += layer.out_features
 
 
-- 
2.43.0


From a29a7f10e1a2a07c884412df0a4a58d558a5f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 37/39] fix: uniform_sample_in_box samples in the dtype of the
 box

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 9a826a0..d698b2b 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1330,7 +1330,7 @@ def uniform_sample_in_box(lo: torch.Tensor, hi: torch.Tensor,
     """
     x_dim = lo.numel()
     assert (hi.shape == (x_dim, ))
-    samples = torch.rand(num_samples, x_dim, dtype=torch.float64)
+    samples = torch.rand(num_samples, x_dim, dtype=lo.dtype)
     samples = samples @ torch.diag(hi - lo)
     samples += torch.reshape(lo, (1, x_dim))
     return samples
-- 
2.43.0


From 7ba6a0dc663fbb21294b19926419acd6b567db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 38/39] fix: uniform_sample_on_box_boundary handles a random
 number equal to zero

---
 neural_network_lyapunov/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index d698b2b..0335873 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1345,8 +1345,9 @@ def uniform_sample_on_box_boundary(lo: torch.Tensor, hi: torch.Tensor,
     x_dim = lo.numel()
     boundary_face_rand = torch.rand((num_samples, )) * 2 - 1
     for i in range(num_samples):
-        boundary_face_index = int(
-            (torch.abs(boundary_face_rand[i]) * x_dim).item())
+        # boundary_face_rand is -1 when torch.rand returns 0.
+        boundary_face_index = min(
+            int((torch.abs(boundary_face_rand[i]) * x_dim).item()), x_dim - 1)
         samples_in_box[i, boundary_face_index] = lo[
             boundary_face_index] if boundary_face_rand[i] < 0 else hi[
                 boundary_face_index]
-- 
2.43.0


From bbafbe1f7b85f5d831f4c04fad380be4f18d889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 39/39] fix: LineSearchGD: each parameter group moves with its
 own learning rate

---
 neural_network_lyapunov/line_search_gd.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 0b1df16..144e97c 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -99,7 +99,7 @@ class LineSearchGD(Optimizer):
 
     def directional_evaluate(self, closure, p, t, d_p):
         for i in range(len(p)):
-            self.add_grad(p[i], t, d_p[i])
+            self.add_grad(p[i], t[i], d_p[i])
         loss = closure()
         return loss
 
@@ -111,14 +111,16 @@ class LineSearchGD(Optimizer):
             min_improvement = group['min_improvement']
 
         increment = loss_minimal_decrement * torch.sum(
-            torch.stack([torch.sum(p[i].grad * d_p[i])
-                         for i in range(len(p))]))
+            torch.stack([
+                t[i] * torch.sum(p[i].grad * d_p[i]) for i in range(len(p))
+            ]))
         alpha_prev = 0
         alpha = 1
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
-                                             (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + alpha * t * increment and \
+                                             [(alpha - alpha_prev) * ti
+                                              for ti in t], d_p)
+            if loss <= loss0 + alpha * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
@@ -135,6 +137,7 @@ class LineSearchGD(Optimizer):
         """
         assert (isinstance(loss0, float))
         p_all = []
+        lr_all = []
         dp_all = []
         for group in self.param_groups:
             weight_decay = group['weight_decay']
@@ -162,5 +165,6 @@ class LineSearchGD(Optimizer):
                     else:
                         d_p = buf
                 p_all.append(p)
+                lr_all.append(lr)
                 dp_all.append(-d_p.clone())
-        return self.line_search(loss0, closure, p_all, lr, dp_all)
+        return self.line_search(loss0, closure, p_all, lr_all, dp_all)
-- 
2.43.0

