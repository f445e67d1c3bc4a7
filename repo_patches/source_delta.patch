From 34d80c3e1308f1962f19b2e842d5c4eaa20c8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 01/33] fix: use the divergence bound when the line search
 fails

A failed line search kept the current mu also for programs without quadratic
costs, so the fallback below was never reached: programs with cones that do
not support line search stayed at the initial mu and were reported solved.
---
 conex/cone_program.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..51647e8 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -378,7 +378,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
                                        config.dinf_upper_bound,
                                        prog.sys.AQc * c_scaling, c_scaling,
                                        b * b_scaling, prog.sys.AW, &y);
-        if (temp < 0) {
+        if (temp < 0 && prog.contains_quadratic_costs_) {
           temp = newton_step_parameters.inv_sqrt_mu;
         }
       }
-- 
2.43.0


From d7bed33f3f8c9374e3051a196552c485f7dc1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 02/33] fix: do not report solved when the iteration limit
 stops mu short of its target

---
 conex/cone_program.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 51647e8..d9ac0df 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -476,7 +476,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     if (final_centering ||
         newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max) {
       if (d_inf <= config.final_centering_tolerance) {
-        max_iters_reached = false;
+        // Centering may have been forced by the iteration limit.
+        max_iters_reached =
+            newton_step_parameters.inv_sqrt_mu < inv_sqrt_mu_max &&
+            i >= config.max_iterations - config.final_centering_steps;
         break;
       }
     }
-- 
2.43.0


From a3084c139e4b125307fd556fdb2458d61a46d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 03/33] fix: do not report solved when final centering failed
 to produce a feasible point

---
 conex/cone_program.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index d9ac0df..7fd3e20 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -281,6 +281,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   double cx = 1;
   double by = -1;
   double kkt_error = 0;
+  double d_inf = 0;
 
   StepOptions newton_step_parameters;
   newton_step_parameters.affine = 0;
@@ -437,7 +438,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     END_TIMER
 
     const double d_2 = std::sqrt(std::fabs(info.normsqrd));
-    const double d_inf = std::fabs(info.norminfd);
+    d_inf = std::fabs(info.norminfd);
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
     // inv_sqrt_mu * <c, x> = c' Q(w^{1/2}) (e + d)
@@ -524,7 +525,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   }
 
   if (prog.status_.solved) {
-    if (max_iters_reached) {
+    if (!(d_inf < 1)) {
+      // The slack is not guaranteed to be in the cone.
+      prog.status_.solved = false;
+      PRINTSTATUS("Centering failed.");
+    } else if (max_iters_reached) {
       prog.status_.solved = false;
       PRINTSTATUS("Terminating at maximum iteration limit.");
     } else {
-- 
2.43.0


From 4c8dd0c6fed239646e491aaad07afb4d52e77a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 04/33] fix: a vanishing duality-gap estimate is not a KKT
 error

A Newton step whose squared norm equals the rank (one inequality in one
variable with line search, for example) made kkt_error infinite and ended
the solve before mu reached its target.
---
 conex/cone_program.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7fd3e20..afd07af 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -464,7 +464,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     if (!prog.contains_quadratic_costs_) {
       REPORT(by);
       REPORT(cx);
-      kkt_error = std::fabs(cx - by - s_dot_x) / s_dot_x;
+      // The estimate of the duality gap vanishes when d_2^2 equals the rank.
+      kkt_error =
+          s_dot_x > 0 ? std::fabs(cx - by - s_dot_x) / s_dot_x : 0;
       REPORT(kkt_error);
     }
 
-- 
2.43.0


From b23e1eee7cee8e99e4581c36a9ffb511c4ce2a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 05/33] fix: CONEX_SetDefaultOptions sets every option

iterative_refinement_iterations and kkt_solver kept whatever bytes the
caller's structure happened to hold.
---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..0d679fd 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -251,9 +251,11 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
       config.initial_centering_steps_coldstart;
   c->warmstart_abort_threshold = config.warmstart_abort_threshold;
   c->max_iterations = config.max_iterations;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->kkt_solver = config.kkt_solver;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From 5ab4dc8a3dae55260e698599baba92b7323be72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 06/33] fix: iteration statistics belong to the solve that
 produced them

They were stored in the workspace with the capacity of the last cold start,
so a warm start with a larger iteration limit wrote past them into the
scalings and the Newton system; and a solve that ended before its first
iteration reported those of an earlier one (or uninitialized memory).
---
 conex/cone_program.cc |  3 +++
 conex/cone_program.h  |  2 +-
 conex/workspace.h     | 24 ++++++++++++++----------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index afd07af..72cc747 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -244,6 +244,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   auto& constraints = prog.constraints_;
   auto& solver = prog.solver;
   prog.status_.solved = 0;
+  prog.status_.num_iterations = 0;
   prog.status_.primal_infeasible = 0;
   prog.status_.dual_infeasible = 0;
   bool max_iters_reached = true;
@@ -271,6 +272,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   }
 
   Initialize(prog, config);
+  prog.stats->Reset(config.max_iterations);
   std::cout << "\n";
 
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
@@ -367,6 +369,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
         continue;
       }
       prog.status_.solved = 0;
+      prog.status_.num_iterations = prog.stats->num_iter;
       PRINTSTATUS("Factorization failed.");
       return prog.status_.solved;
     }
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..821a3c2 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -123,7 +123,7 @@ class Program {
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
         ci.constraint.get_dual_variable(xi->data());
-        if (!status_.primal_infeasible) {
+        if (!status_.primal_infeasible && stats->num_iter > 0) {
           xi->array() /=
               (stats->sqrt_inv_mu[stats->num_iter - 1] * stats->b_scaling());
         }
diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..4041bf9 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -71,18 +71,22 @@ class Workspace {
 
 // Workspaces are actually smart pointers to type-erased data:
 struct WorkspaceStats {
-  WorkspaceStats(int max_iter) : max_iter_(max_iter) {}
+  WorkspaceStats(int max_iter) { Reset(max_iter); }
   friend void Initialize(WorkspaceStats* o, double* y) {
-    o->sqrt_inv_mu = y;
-    o->norm_inf_d = y + o->max_iter_;
-    o->c_scaling_ = y + 2 * o->max_iter_;
-    o->b_scaling_ = y + 2 * o->max_iter_ + 1;
+    o->c_scaling_ = y;
+    o->b_scaling_ = y + 1;
     o->initialized = true;
   }
 
-  friend int SizeOf(const WorkspaceStats& o) {
-    constexpr int num_items = 2;
-    return o.max_iter_ * num_items + 2;
+  friend int SizeOf(const WorkspaceStats&) { return 2; }
+
+  // Discards the statistics of the previous solve and makes room for max_iter
+  // iterations, whatever the limit was when the workspace was initialized.
+  void Reset(int max_iter) {
+    max_iter_ = max_iter > 0 ? max_iter : 0;
+    num_iter = 0;
+    sqrt_inv_mu.assign(max_iter_, 0);
+    norm_inf_d.assign(max_iter_, 0);
   }
 
   friend void print(const WorkspaceStats& o) {
@@ -94,8 +98,8 @@ struct WorkspaceStats {
 
   bool IsInitialized() { return initialized; }
 
-  double* sqrt_inv_mu;
-  double* norm_inf_d;
+  std::vector<double> sqrt_inv_mu;
+  std::vector<double> norm_inf_d;
   double* c_scaling_;
   double* b_scaling_;
   double& b_scaling() {
-- 
2.43.0


From 9a4456daf5bfa44c57a3142b84ff93b8244413b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 07/33] fix: do not return uninitialized memory when no
 iteration runs

---
 conex/cone_program.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 72cc747..9f0963d 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -277,6 +277,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
 
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
   Eigen::Map<DenseMatrix> yout(primal_variable, m, 1);
+  ydata.setZero();
   Ref y(ydata.data(), prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
 
   double inv_sqrt_mu_max = config.inv_sqrt_mu_max;
-- 
2.43.0


From d7e366f31cab0c2e4f489347175bd9391b12bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 08/33] fix: Solve returns false when it rejects the
 configuration or the line search fails

CONEX_DEMAND returns the error code 1, which a caller of Solve reads as
solved.
---
 conex/cone_program.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 9f0963d..af74a58 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -234,19 +234,24 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
+  prog.status_.solved = 0;
+  prog.status_.num_iterations = 0;
+  prog.status_.primal_infeasible = 0;
+  prog.status_.dual_infeasible = 0;
+
+  // A return value of true would mean that the program has been solved.
+  if (prog.contains_quadratic_costs_ &&
+      (!config.enable_line_search || config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs."
+              << std::endl;
+    return false;
+  }
 
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
   auto& solver = prog.solver;
-  prog.status_.solved = 0;
-  prog.status_.num_iterations = 0;
-  prog.status_.primal_infeasible = 0;
-  prog.status_.dual_infeasible = 0;
   bool max_iters_reached = true;
 
 #if CONEX_VERBOSE
@@ -389,8 +394,12 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       }
 
       if (temp < 0) {
-        CONEX_DEMAND(!prog.contains_quadratic_costs_,
-                     "Solver terminating with error: line-search failed.");
+        if (prog.contains_quadratic_costs_) {
+          std::cerr << "Solver terminating with error: line-search failed."
+                    << std::endl;
+          prog.status_.num_iterations = prog.stats->num_iter;
+          return false;
+        }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
                                        prog.sys.AQc * c_scaling, c_scaling,
                                        b * b_scaling, config, rankK, &y);
-- 
2.43.0


From cb3c7a815614215debaf5e9b57c7e266ce6516e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 09/33] fix: the C interface accepts programs that have been
 solved

A solved program has two workspaces per constraint, plus two, so every
checked call on it was refused as an invalid pointer.
---
 interfaces/conex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 0d679fd..1a7e90b 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,7 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    if (2 * prog->NumberOfConstraints() + 2 !=                             \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From e7d57cb5b5c576525a2dccd007393644f6cd8544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:14 +0000
Subject: [PATCH 10/33] fix: the first solve after adding a constraint is a
 cold start

A warm start kept the workspaces of the smaller program and dereferenced the
null maps of the new constraint.
---
 conex/cone_program.cc |  8 +++++++-
 conex/cone_program.h  | 25 +++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index af74a58..95c56bc 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -90,6 +90,7 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
       prog.stats->b_scaling() = 1;
       prog.stats->c_scaling() = 1;
       SetIdentity(&prog.constraints_);
+      prog.requires_coldstart_ = false;
     }
 
     START_TIMER(Sparsity Analysis);
@@ -232,8 +233,13 @@ bool Program::AddLinearCost(const VectorXd& b) {
 
 void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
-bool Solve(Program& prog, const SolverConfiguration& config,
+bool Solve(Program& prog, const SolverConfiguration& requested_config,
            double* primal_variable) {
+  SolverConfiguration config = requested_config;
+  if (prog.requires_coldstart_) {
+    config.initialization_mode = CONEX_INITIALIZATION_MODE_COLDSTART;
+  }
+
   prog.status_.solved = 0;
   prog.status_.num_iterations = 0;
   prog.status_.primal_infeasible = 0;
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 821a3c2..8246bb2 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -188,17 +188,32 @@ class Program {
     is_initialized = true;
   }
 
+  // The workspace of a previous solve does not fit a program with additional
+  // constraints: the next solve must be a cold start.
+  void InvalidateWorkspace() {
+    if (is_initialized) {
+      requires_coldstart_ = true;
+      is_initialized = false;
+      workspaces.clear();
+    }
+  }
+
   template <typename T>
   bool AddConstraint(T&& d) {
     if constexpr (!std::is_same<T, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
+        InvalidateWorkspace();
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
       }
       return result;
     } else {
-      return kkt_system_manager_.AddEqualityConstraint(
+      bool result = kkt_system_manager_.AddEqualityConstraint(
           std::forward<EqualityConstraints>(d));
+      if (result == CONEX_SUCCESS) {
+        InvalidateWorkspace();
+      }
+      return result;
     }
   }
 
@@ -208,12 +223,17 @@ class Program {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
+        InvalidateWorkspace();
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
       }
       return result;
     } else {
-      return kkt_system_manager_.AddEqualityConstraint(
+      bool result = kkt_system_manager_.AddEqualityConstraint(
           std::forward<EqualityConstraints>(d), variables);
+      if (result == CONEX_SUCCESS) {
+        InvalidateWorkspace();
+      }
+      return result;
     }
   }
 
@@ -230,6 +250,7 @@ class Program {
   Eigen::VectorXd memory_;
   Eigen::VectorXd* workspace_data_;
   bool is_initialized = false;
+  bool requires_coldstart_ = false;
   bool contains_quadratic_costs_ = false;
   ConexStatus status_;
 
-- 
2.43.0


From 7b9f580d40d5fe7cad9e05d6479a7f02acd8f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 11/33] fix: equality constraints passed as lvalues are
 registered as equality constraints

T deduces to a reference for an lvalue, which sent the constraint down the
path of inequality constraints, without its dual variables.
---
 conex/cone_program.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 8246bb2..0a6d11f 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -200,7 +200,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         InvalidateWorkspace();
@@ -209,7 +209,7 @@ class Program {
       return result;
     } else {
       bool result = kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d));
+          EqualityConstraints(std::forward<T>(d)));
       if (result == CONEX_SUCCESS) {
         InvalidateWorkspace();
       }
@@ -219,7 +219,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
@@ -229,7 +229,7 @@ class Program {
       return result;
     } else {
       bool result = kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d), variables);
+          EqualityConstraints(std::forward<T>(d)), variables);
       if (result == CONEX_SUCCESS) {
         InvalidateWorkspace();
       }
-- 
2.43.0


From e597f34943ede95f5151341ad60c5b5b1f445b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:43 +0000
Subject: [PATCH 12/33] fix: the norm of a Newton direction is never below its
 root mean square

The eigenvalues that yield the norm are approximate and can miss a large
eigenvalue entirely. The step was then too long, the scaling point diverged,
and points with a huge residual were reported as solved, typically when warm
starting after a change of the data.
---
 conex/hermitian_psd.cc  | 13 ++++++++++++-
 conex/psd_constraint.cc |  6 ++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..c814721 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -66,8 +66,14 @@ void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
 
   auto WSWS = T::Multiply(WS, WS);
 
-  info->norminfd = norminf;
   info->normsqrd = WSWS.at(0).trace() + 2 * WS.at(0).trace() + Rank(*o);
+
+  // The eigenvalues are approximate, but the largest is never less than the
+  // root mean square.
+  if (norminf * norminf * n < info->normsqrd) {
+    norminf = std::sqrt(info->normsqrd / n);
+  }
+  info->norminfd = norminf;
 }
 
 template <typename T>
@@ -142,6 +148,11 @@ void PrepareStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt,
 
   // TODO(FrankPermenter): replace this heuristic approximation.
   info->norminfd = 1.0 / 3.0 * (trace_ws + Rank(*o));
+
+  // The largest eigenvalue is never less than the root mean square.
+  if (info->norminfd * info->norminfd * Rank(*o) < info->normsqrd) {
+    info->norminfd = std::sqrt(info->normsqrd / Rank(*o));
+  }
 }
 
 template <>
diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 579070a..c49e9e6 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -79,6 +79,12 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   WSWS = WS * WS;
   double norm2 = WSWS.trace() + 2 * WS.trace() + Rank(*o);
 
+  // The eigenvalues are approximate, but the largest is never less than the
+  // root mean square.
+  if (norminf * norminf * n < norm2) {
+    norminf = std::sqrt(norm2 / n);
+  }
+
   info->norminfd = norminf;
   info->normsqrd = norm2;
 }
-- 
2.43.0


From f230b438f3c8c17886031c595a829187d9ae0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:59 +0000
Subject: [PATCH 13/33] fix: dual variables outside the cone do not initialize
 the next solve

Preparing the dual variables replaces the scaling point by an affine step that
leaves the cone unless the last Newton step was short (iteration limit, failed
centering, quadratic costs). Warm starting from it reported infeasible or
suboptimal points as solved. The next solve is now a cold start in this case.
---
 conex/cone_program.cc              | 10 +++++++++-
 conex/hermitian_psd.cc             |  7 ++++---
 conex/psd_constraint.cc            |  3 ++-
 conex/quadratic_cone_constraint.cc |  5 ++++-
 conex/soc_constraint.cc            |  5 ++++-
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 95c56bc..9e5ea2d 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -531,11 +531,19 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
         newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
     y2 = solver->Solve(bres);
 
-    newton_step_parameters.affine = true;
     newton_step_parameters.e_weight = 0;
     newton_step_parameters.c_weight = 0;
     Ref y2map(y2.data(), y2.rows(), y2.cols());
     StepInfo info;
+    // The affine step leaves the cone unless its norm is less than one. A
+    // point that is not in the cone must not initialize the next solve.
+    PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
+                &info);
+    if (!(info.norminfd < 1)) {
+      prog.requires_coldstart_ = true;
+    }
+
+    newton_step_parameters.affine = true;
     PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
                 &info);
   }
diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index c814721..b58d3eb 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -66,7 +66,8 @@ void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
 
   auto WSWS = T::Multiply(WS, WS);
 
-  info->normsqrd = WSWS.at(0).trace() + 2 * WS.at(0).trace() + Rank(*o);
+  info->normsqrd = WSWS.at(0).trace() + 2 * opt.e_weight * WS.at(0).trace() +
+                   opt.e_weight * opt.e_weight * Rank(*o);
 
   // The eigenvalues are approximate, but the largest is never less than the
   // root mean square.
@@ -144,10 +145,10 @@ void PrepareStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt,
   double trace_ws = T::TraceInnerProduct(o->W, minus_s);
   info->normsqrd =
       T::TraceInnerProduct(T::QuadraticRepresentation(o->W, minus_s), minus_s) +
-      2 * trace_ws + Rank(*o);
+      2 * opt.e_weight * trace_ws + opt.e_weight * opt.e_weight * Rank(*o);
 
   // TODO(FrankPermenter): replace this heuristic approximation.
-  info->norminfd = 1.0 / 3.0 * (trace_ws + Rank(*o));
+  info->norminfd = 1.0 / 3.0 * (trace_ws + opt.e_weight * Rank(*o));
 
   // The largest eigenvalue is never less than the root mean square.
   if (info->norminfd * info->norminfd * Rank(*o) < info->normsqrd) {
diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index c49e9e6..39a810f 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -77,7 +77,8 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   }
 
   WSWS = WS * WS;
-  double norm2 = WSWS.trace() + 2 * WS.trace() + Rank(*o);
+  double norm2 = WSWS.trace() + 2 * opt.e_weight * WS.trace() +
+                 opt.e_weight * opt.e_weight * Rank(*o);
 
   // The eigenvalues are approximate, but the largest is never less than the
   // root mean square.
diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..e6d3354 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -171,6 +171,9 @@ void GetWeightedSlackEigenvalues(QuadraticConstraintBase* o, const Ref& y,
 
 void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
                  const Ref& y, StepInfo* info) {
+  if (opt.affine) {
+    return;
+  }
   Eigen::internal::set_is_malloc_allowed(false);
   // d =  e - Q(w^{1/2})(C-A^y)
   double& wsqrt_q0 = *o->workspace_.W0;
@@ -193,7 +196,7 @@ void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
         wsqrt_q1_norm_sqr,
         InnerProduct(o->Q_, wsqrt_q1, minus_s_1, &o->workspace_.temp2_1),
         wsqrt_q0, wsqrt_q1, minus_s_0, minus_s_1, &d_q0, &d_q1);
-    d_q0 += 1;
+    d_q0 += opt.e_weight;
   }  // temp_1 is free
 
   // Compute rescaling.
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index f073c21..783f3f0 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -250,6 +250,9 @@ bool TakeStep(SOCConstraint* o, const StepOptions& opt) {
 
 void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
                  StepInfo* info) {
+  if (opt.affine) {
+    return;
+  }
   Eigen::VectorXd minus_s_data(o->workspace_.n_ + 1);
   Ref minus_s(minus_s_data.data(), o->workspace_.n_ + 1, 1);
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
@@ -261,7 +264,7 @@ void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
   o->workspace_.W1 = wsqrt.bottomRows(n - 1);
 
   auto d = QuadraticRepresentation(wsqrt, minus_s);
-  d(0, 0) += 1;
+  d(0, 0) += opt.e_weight;
   o->workspace_.temp1_1 = d.bottomRows(n - 1);
   o->workspace_.d0 = d(0, 0);
 
-- 
2.43.0


From c8c41e18cc485696b9b6a6c553605e2534f5d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 14/33] fix: do not report solved when the Newton system was
 not solved

A singular system is factored after regularization, or solved in the
least-squares sense, without notice. The resulting point violated equality
constraints, was arbitrary along unconstrained directions of unbounded
programs, or was not finite, and was reported as solved.
---
 conex/cone_program.cc        | 22 ++++++++++++++++++++++
 conex/cone_program.h         |  4 ++++
 conex/equality_constraint.cc |  8 ++++++--
 conex/newton_step.h          |  2 ++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 9e5ea2d..5d5abb0 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -296,6 +296,9 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
   double by = -1;
   double kkt_error = 0;
   double d_inf = 0;
+  // Relative error of the solution of the last Newton system.
+  double newton_error = 0;
+  VectorXd newton_rhs;
 
   StepOptions newton_step_parameters;
   newton_step_parameters.affine = 0;
@@ -429,6 +432,7 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
     y = newton_step_parameters.inv_sqrt_mu *
             (b * b_scaling + prog.sys.AQc * c_scaling) -
         2 * prog.sys.AW;
+    newton_rhs = y.col(0);
     START_TIMER(Solve)
     solver->SolveInPlace(&y);
     END_TIMER
@@ -456,6 +460,7 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
     }
     END_TIMER
 
+    newton_error = info.residual;
     const double d_2 = std::sqrt(std::fabs(info.normsqrd));
     d_inf = std::fabs(info.norminfd);
     by = b.col(0).dot(y.col(0)) * 1.0 /
@@ -483,6 +488,10 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
     if (!prog.contains_quadratic_costs_) {
       REPORT(by);
       REPORT(cx);
+      // Zero if y solves the Newton system exactly.
+      newton_error = std::max(newton_error,
+                              std::fabs(cx - by - s_dot_x) /
+                                  (1 + std::fabs(cx) + std::fabs(by)));
       // The estimate of the duality gap vanishes when d_2^2 equals the rank.
       kkt_error =
           s_dot_x > 0 ? std::fabs(cx - by - s_dot_x) / s_dot_x : 0;
@@ -522,6 +531,14 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
   } else {
     prog.status_.solved = true;
   }
+  if (prog.status_.solved && config.kkt_solver == CONEX_QR_FACTORIZATION) {
+    // The least-squares solution of a singular system.
+    VectorXd residual = solver->KKTMatrix() * y.col(0) - newton_rhs;
+    newton_error = std::max(newton_error,
+                            residual.norm() /
+                                (newton_step_parameters.inv_sqrt_mu *
+                                 b_scaling * (1 + b.norm())));
+  }
   if (config.prepare_dual_variables) {
     DenseMatrix y2;
     solver->Assemble();
@@ -553,11 +570,16 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
     yout /= c_scaling;
   }
 
+  const double kMaxNewtonError = 1e-5;
   if (prog.status_.solved) {
     if (!(d_inf < 1)) {
       // The slack is not guaranteed to be in the cone.
       prog.status_.solved = false;
       PRINTSTATUS("Centering failed.");
+    } else if (!(newton_error <= kMaxNewtonError) || !y.allFinite()) {
+      // The Newton system is singular, or its factorization was regularized.
+      prog.status_.solved = false;
+      PRINTSTATUS("Newton system not solved.");
     } else if (max_iters_reached) {
       prog.status_.solved = false;
       PRINTSTATUS("Terminating at maximum iteration limit.");
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 0a6d11f..25dba6e 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -73,6 +73,7 @@ inline void PrepareStep(ConstraintManager<Container>* kkt,
   info_i.normsqrd = 0;
   info_i.norminfd = 0;
   info->normsqrd = 0;
+  info->residual = 0;
   info->norminfd = -1;
   int i = 0;
   for (auto& ci : kkt->eqs) {
@@ -84,6 +85,9 @@ inline void PrepareStep(ConstraintManager<Container>* kkt,
     if (info_i.norminfd > info->norminfd) {
       info->norminfd = info_i.norminfd;
     }
+    if (info_i.residual > info->residual) {
+      info->residual = info_i.residual;
+    }
     info->normsqrd += info_i.normsqrd;
     i++;
   }
diff --git a/conex/equality_constraint.cc b/conex/equality_constraint.cc
index 999de9e..97130dc 100644
--- a/conex/equality_constraint.cc
+++ b/conex/equality_constraint.cc
@@ -27,11 +27,15 @@ void ConstructSchurComplementSystem(EqualityConstraints* o, bool initialize,
   }
 }
 
-void PrepareStep(EqualityConstraints* o, const StepOptions&, const Ref& y,
-                 StepInfo* info_i) {
+void PrepareStep(EqualityConstraints* o, const StepOptions& options,
+                 const Ref& y, StepInfo* info_i) {
   o->lambda_ = y.col(0).tail(o->b_.rows());
   info_i->normsqrd = 0;
   info_i->norminfd = 0;
+  if (options.c_weight > 0 && o->b_.rows() > 0) {
+    MatrixXd error = o->A_ * y.topRows(o->A_.cols()) - options.c_weight * o->b_;
+    info_i->residual = error.norm() / (options.c_weight * (1 + o->b_.norm()));
+  }
 }
 
 }  // namespace conex
diff --git a/conex/newton_step.h b/conex/newton_step.h
index 8567289..15a83bc 100644
--- a/conex/newton_step.h
+++ b/conex/newton_step.h
@@ -33,6 +33,8 @@ struct StepOptions {
 struct StepInfo {
   double normsqrd = 0;
   double norminfd = 0;
+  // Relative violation of equality constraints.
+  double residual = 0;
 };
 
 struct LineSearchParameters {
-- 
2.43.0


From f857aa1dbb35208336f78d50d942465f67cafae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 15/33] fix: a warm start without a previous solve starts from
 the identity

---
 conex/cone_program.cc | 5 +++--
 conex/cone_program.h  | 7 +++++--
 conex/hermitian_psd.h | 8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 5d5abb0..45a57e2 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -85,8 +85,9 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.m_ = prog.kkt_system_manager_.SizeOfKKTSystem();
     prog.sys.residual_only_ = true;
 
-    prog.InitializeWorkspace();
-    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+    const bool no_data = prog.InitializeWorkspace();
+    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART ||
+        no_data) {
       prog.stats->b_scaling() = 1;
       prog.stats->c_scaling() = 1;
       SetIdentity(&prog.constraints_);
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 25dba6e..f441e23 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -175,7 +175,8 @@ class Program {
     CONEX_DEMAND(false, "Invalid Constraint");
   }
 
-  void InitializeWorkspace() {
+  // Returns true if the workspace does not hold data of a previous solve.
+  bool InitializeWorkspace() {
     workspaces.clear();
     for (auto& c : kkt_system_manager_.eqs) {
       workspaces.push_back(c.constraint.workspace());
@@ -184,12 +185,14 @@ class Program {
     workspaces.emplace_back(stats.get());
     workspaces.emplace_back(&sys);
     auto size = SizeOf(workspaces);
-    if (size > workspace_data_->size()) {
+    const bool resize = size > workspace_data_->size();
+    if (resize) {
       workspace_data_->resize(size);
     }
     Initialize(&workspaces, workspace_data_->data());
 
     is_initialized = true;
+    return resize;
   }
 
   // The workspace of a previous solve does not fit a program with additional
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..24f6806 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -42,13 +42,17 @@ class HermitianPsdConstraint {
  public:
   using Matrix = typename T::Matrix;
 
-  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {}
+  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {
+    SetIdentity(this);
+  }
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
         workspace_(n),
         constraint_matrices_(a),
-        constraint_affine_(c) {}
+        constraint_affine_(c) {
+    SetIdentity(this);
+  }
 
   WorkspaceDenseHermitian* workspace() { return &workspace_; }
   friend void SetIdentity(HermitianPsdConstraint* o) {
-- 
2.43.0


From b0b6b489c94a5a8c09f5a23ba0c631c5fb5f16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 16/33] fix: dual variables of Hermitian constraints are
 defined before the first step

---
 conex/hermitian_psd.cc |  3 +++
 conex/hermitian_psd.h  | 13 +++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index b58d3eb..a137c88 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -131,6 +131,9 @@ bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
   }
 
   o->W = GeodesicUpdateScaled(o->W, minus_s);
+  int n = Rank(*o);
+  new (&o->workspace_.W)
+      Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(o->W.at(0).data(), n, n);
   return true;
 }
 
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 24f6806..ff9b598 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -42,21 +42,22 @@ class HermitianPsdConstraint {
  public:
   using Matrix = typename T::Matrix;
 
-  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {
-    SetIdentity(this);
-  }
+  HermitianPsdConstraint(int n)
+      : rank_(n), workspace_(n), W(T::Identity(n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
         workspace_(n),
         constraint_matrices_(a),
-        constraint_affine_(c) {
-    SetIdentity(this);
-  }
+        constraint_affine_(c),
+        W(T::Identity(n)) {}
 
   WorkspaceDenseHermitian* workspace() { return &workspace_; }
   friend void SetIdentity(HermitianPsdConstraint* o) {
     o->W = T::Identity(o->rank_);
+    // The dual-variable interface reads the real part of W.
+    new (&o->workspace_.W) Eigen::Map<DenseMatrix, Eigen::Aligned>(
+        o->W.at(0).data(), o->rank_, o->rank_);
   }
   friend int Rank(const HermitianPsdConstraint& o) { return o.rank_; };
 
-- 
2.43.0


From 1409e7fdd4944ffd5587149e45fe6b589995bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:52 +0000
Subject: [PATCH 17/33] fix: a block with fill-in is not assembled in place

---
 conex/supernodal_assembler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/supernodal_assembler.cc b/conex/supernodal_assembler.cc
index 464a60c..8d00a02 100644
--- a/conex/supernodal_assembler.cc
+++ b/conex/supernodal_assembler.cc
@@ -78,8 +78,9 @@ void T::BindDiagonalBlock(const DiagonalBlock* data) {
 
   if (m == data->num_vars) {
     direct_update = true;
-    for (int i = 1; i < data->num_vars; i++) {
-      if (*(data->var_data + i) <= *(data->var_data + i - 1)) {
+    for (int i = 0; i < data->num_vars; i++) {
+      // Negative entries denote fill-in.
+      if (*(data->var_data + i) != i) {
         direct_update = false;
         break;
       }
-- 
2.43.0


From 0839f6baca357b8daca60ac1de9ab89072387a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 18/33] fix: reject out-of-range indices when updating
 constraints

---
 conex/cone_program.h       | 5 +++++
 conex/hermitian_psd.cc     | 3 +++
 conex/linear_constraint.cc | 2 ++
 conex/quadratic_cost.cc    | 1 +
 conex/soc_constraint.h     | 3 ++-
 5 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index f441e23..6b81602 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -154,6 +154,11 @@ class Program {
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
+        // Zero if the number of variables has not been set.
+        CONEX_DEMAND(
+            GetNumberOfVariables() == 0 ||
+                variable < ci.supernodal_assembler.NumberOfVariables(),
+            "Variable index out of bounds.");
         return UpdateLinearOperator(&ci.constraint, value, variable, row, col,
                                     hyper_complex_dim);
       }
diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index a137c88..7d33169 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -266,6 +266,8 @@ bool UpdateLinearOperator(HermitianPsdConstraint<H>* o, double val, int var,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(var >= 0 && r >= 0 && c >= 0 && dim >= 0,
+               "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
@@ -303,6 +305,7 @@ bool UpdateAffineTerm(HermitianPsdConstraint<H>* o, double val, int r, int c,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(r >= 0 && c >= 0 && dim >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..ac11e18 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -209,6 +209,8 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(dim == 0, "Complex linear constraints not supported.");
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
+  CONEX_DEMAND(var < o->constraint_matrix_.cols(),
+               "Variable index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
 
   o->constraint_matrix_(r, var) = val;
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..a30ed42 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -34,6 +34,7 @@ class QuadraticFunction {
                                int dim) {
     CONEX_DEMAND(dim == 0, "Quadratic cost must be real valued matrix.");
     CONEX_DEMAND(r < o->A_.rows() && c < o->A_.cols(), "Index out of bounds");
+    CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
     o->A_(r, c) = val;
     return CONEX_SUCCESS;
   }
diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..3a9a872 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,7 +11,8 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
-- 
2.43.0


From 799b02ce77c9cf2bbe8a46b78326397bba446059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:51 +0000
Subject: [PATCH 19/33] fix: constraints on invalid variables are reported as
 failures

---
 conex/cone_program.cc      | 7 ++++---
 conex/constraint_manager.h | 8 +++-----
 conex/quadratic_cost.cc    | 4 ++--
 conex/quadratic_cost.h     | 2 +-
 4 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 45a57e2..4704fb3 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -613,9 +613,10 @@ bool Solve(const DenseMatrix& b, Program& prog,
 
 bool Program::AddQuadraticCost(const DenseMatrix& Q,
                                const std::vector<int>& vars) {
-  contains_quadratic_costs_ = true;
-  conex::AddQuadraticCost(this, Q, vars);
-  bool failure = false;
+  bool failure = conex::AddQuadraticCost(this, Q, vars);
+  if (!failure) {
+    contains_quadratic_costs_ = true;
+  }
   return failure;
 }
 
diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..1e25fbd 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
@@ -53,8 +53,7 @@ class ConstraintManager {
     for (size_t i = 0; i < clique.size(); i++) {
       clique[i] = i;
     }
-    AddConstraint(x, clique);
-    return CONEX_SUCCESS;
+    return AddConstraint(x, clique);
   }
 
   template <typename T>
@@ -90,8 +89,7 @@ class ConstraintManager {
     for (size_t i = 0; i < clique.size(); i++) {
       clique[i] = i;
     }
-    AddEqualityConstraint(std::forward<EqualityConstraints>(x), clique);
-    return CONEX_SUCCESS;
+    return AddEqualityConstraint(std::forward<EqualityConstraints>(x), clique);
   }
 
   // Use a list so that we do not trigger reallocations.
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index a30ed42..bb7c7df 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -71,9 +71,9 @@ class QuadraticFunction {
 };
 }  // namespace
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z) {
-  conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
+  return conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
 }
 
 }  // namespace conex
diff --git a/conex/quadratic_cost.h b/conex/quadratic_cost.h
index 852aeda..a0a3016 100644
--- a/conex/quadratic_cost.h
+++ b/conex/quadratic_cost.h
@@ -3,7 +3,7 @@
 
 namespace conex {
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z);
 
 }  // namespace conex
-- 
2.43.0


From 8d7dd9f2265f2be35adf51c3d290a5f1553af02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:03 +0000
Subject: [PATCH 20/33] fix: the C interface checks row counts and statistics
 before the first solve

---
 interfaces/conex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 1a7e90b..747443a 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -267,7 +267,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
@@ -319,6 +319,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
+  CONEX_DEMAND(num_rows >= 1, "Number of rows must be > 0.");
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
-- 
2.43.0


From 75693e1b94dc1e1b54b0eeb693382a087ad40016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 21/33] fix: Solve rejects cost vectors of the wrong dimension

---
 conex/cone_program.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 4704fb3..7cd37ff 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -606,6 +606,11 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
 
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
+  if (b.rows() != prog.GetNumberOfVariables() || b.cols() != 1) {
+    std::cerr << "Cost vector dimension does not equal number of variables."
+              << std::endl;
+    return false;
+  }
   prog.ClearLinearCosts();
   prog.AddLinearCost(-b);
   return Solve(prog, config, primal_variable);
-- 
2.43.0


From d1e86642ccf63b720ee6d84ac66353968b81bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 22/33] fix: a constraint is added completely or not at all

---
 conex/cone_program.h       |  2 ++
 conex/constraint_manager.h | 27 +++++++++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 6b81602..2fa136d 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -213,6 +213,7 @@ class Program {
   template <typename T>
   bool AddConstraint(T&& d) {
     if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
+      ReserveOneMore(&constraints_);
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         InvalidateWorkspace();
@@ -232,6 +233,7 @@ class Program {
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
     if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
+      ReserveOneMore(&constraints_);
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 1e25fbd..2aaa20c 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -23,6 +23,14 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   return true;
 }
 
+// Makes the next call to push_back non-throwing.
+template <typename T>
+void ReserveOneMore(std::vector<T>* x) {
+  if (x->size() == x->capacity()) {
+    x->reserve(2 * x->size() + 1);
+  }
+}
+
 template <typename Container>
 class ConstraintManager {
  public:
@@ -61,8 +69,11 @@ class ConstraintManager {
     if (!IsUnique(max_number_of_variables_, variables)) {
       return CONEX_FAILURE;
     }
+    std::vector<int> clique(variables);
+    ReserveOneMore(&cliques);
+    ReserveOneMore(&dual_vars);
     eqs.emplace_back(x, variables.size());
-    cliques.push_back(variables);
+    cliques.push_back(std::move(clique));
     dual_vars.push_back({});
     return CONEX_SUCCESS;
   }
@@ -73,13 +84,17 @@ class ConstraintManager {
       return CONEX_FAILURE;
     }
     const int m = x.SizeOfDualVariable();
-    eqs.emplace_back(x, m + variables.size());
-    cliques.push_back(variables);
-    dual_vars.push_back({});
+    std::vector<int> clique(variables);
+    std::vector<int> dual;
     for (int i = 0; i < m; i++) {
-      cliques.back().push_back(i + dual_variable_start_);
-      dual_vars.back().push_back(i + dual_variable_start_);
+      clique.push_back(i + dual_variable_start_);
+      dual.push_back(i + dual_variable_start_);
     }
+    ReserveOneMore(&cliques);
+    ReserveOneMore(&dual_vars);
+    eqs.emplace_back(x, m + variables.size());
+    cliques.push_back(std::move(clique));
+    dual_vars.push_back(std::move(dual));
     dual_variable_start_ += m;
     return CONEX_SUCCESS;
   }
-- 
2.43.0


From cb6938ea4a6cf7b828a5b875d664ef09232e43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:07 +0000
Subject: [PATCH 23/33] fix: a solve interrupted by an exception leaves no
 partial state

---
 conex/cone_program.cc | 26 ++++++++++++++++++++++----
 conex/cone_program.h  | 10 +++++++++-
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7cd37ff..77ba756 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -234,8 +234,9 @@ bool Program::AddLinearCost(const VectorXd& b) {
 
 void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
-bool Solve(Program& prog, const SolverConfiguration& requested_config,
-           double* primal_variable) {
+namespace {
+bool SolveProgram(Program& prog, const SolverConfiguration& requested_config,
+                  double* primal_variable) {
   SolverConfiguration config = requested_config;
   if (prog.requires_coldstart_) {
     config.initialization_mode = CONEX_INITIALIZATION_MODE_COLDSTART;
@@ -591,10 +592,26 @@ bool Solve(Program& prog, const SolverConfiguration& requested_config,
 
   return prog.status_.solved;
 }
+}  // namespace
+
+bool Solve(Program& prog, const SolverConfiguration& config,
+           double* primal_variable) {
+  try {
+    return SolveProgram(prog, config, primal_variable);
+  } catch (...) {
+    prog.DiscardSolve();
+    throw;
+  }
+}
 
 DenseMatrix GetFeasibleObjective(Program* prg) {
   auto& prog = *prg;
-  Initialize(prog, SolverConfiguration());
+  try {
+    Initialize(prog, SolverConfiguration());
+  } catch (...) {
+    prog.DiscardSolve();
+    throw;
+  }
 
   Eigen::VectorXd AW(prog.kkt_system_manager_.SizeOfKKTSystem());
   Eigen::VectorXd AQc(prog.kkt_system_manager_.SizeOfKKTSystem());
@@ -611,8 +628,9 @@ bool Solve(const DenseMatrix& b, Program& prog,
               << std::endl;
     return false;
   }
+  const VectorXd cost = -b;
   prog.ClearLinearCosts();
-  prog.AddLinearCost(-b);
+  prog.AddLinearCost(cost);
   return Solve(prog, config, primal_variable);
 }
 
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 2fa136d..cdce05c 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -39,7 +39,7 @@ struct SolverConfiguration {
 
 struct ConexStatus {
   int solved = 0;
-  int num_iterations;
+  int num_iterations = 0;
   int primal_infeasible = 0;
   int dual_infeasible = 0;
 };
@@ -210,6 +210,14 @@ class Program {
     }
   }
 
+  // An exception left the solve incomplete.
+  void DiscardSolve() {
+    status_.solved = 0;
+    requires_coldstart_ = true;
+    is_initialized = false;
+    workspaces.clear();
+  }
+
   template <typename T>
   bool AddConstraint(T&& d) {
     if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
-- 
2.43.0


From bd6722e1f896ce245ef9d042363591f8ac267f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 24/33] fix: bounds that are not a number are not dropped

---
 conex/linear_constraint.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index ac11e18..df5811f 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -29,13 +29,14 @@ void PreprocessLinearInequality(const MatrixXd& A, const MatrixXd& lb,
       AppendRow(Aeq, scale * A.row(i));
       AppendRow(beq, scale * ub.row(i));
     } else {
-      if (ub(i, 0) < 1e8) {
+      // Negated comparisons: a bound that is not a number is not dropped.
+      if (!(ub(i, 0) >= 1e8)) {
         double scale =
             1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
         AppendRow(Aineq, scale * A.row(i));
         AppendRow(bineq, scale * ub.row(i));
       }
-      if (lb(i, 0) > -1e8) {
+      if (!(lb(i, 0) <= -1e8)) {
         double scale =
             1.0 / std::sqrt(A.row(i).squaredNorm() + lb.row(i).squaredNorm());
         AppendRow(Aineq, -scale * A.row(i));
-- 
2.43.0


From b6d454986b82bad5d4d4d7454c1a90513f3352d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:45 +0000
Subject: [PATCH 25/33] fix: the dual step is judged by its exact norm and
 leaves scaling points alone

The estimate of the largest eigenvalue may be below one although the affine
step leaves the cone. Evaluating the norm by PrepareStep replaced the scaling
points of second-order cones by their square roots.
---
 conex/cone_program.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 77ba756..e8f59c7 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -554,11 +554,12 @@ bool SolveProgram(Program& prog, const SolverConfiguration& requested_config,
     newton_step_parameters.c_weight = 0;
     Ref y2map(y2.data(), y2.rows(), y2.cols());
     StepInfo info;
-    // The affine step leaves the cone unless its norm is less than one. A
+    // The affine step may leave the cone unless its norm is less than one. A
     // point that is not in the cone must not initialize the next solve.
-    PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
-                &info);
-    if (!(info.norminfd < 1)) {
+    WeightedSlackEigenvalues step;
+    GetWeightedSlackEigenvalues(&prog.kkt_system_manager_, y2map,
+                                newton_step_parameters.c_weight, &step);
+    if (!(step.frobenius_norm_squared < 1)) {
       prog.requires_coldstart_ = true;
     }
 
-- 
2.43.0


From 625e24c903e2dd00c975c23e54026d3d0c265e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:15 +0000
Subject: [PATCH 26/33] fix: a scaling point outside of the cone is neither
 accepted nor used for a warm start

Rounding errors may move the scaling point of a matrix inequality out of the
cone, where the norm that measures centrality is not defined. The affine step
that prepares dual variables may do the same: a process that only has the
workspace must notice it too.
---
 conex/cone_program.cc      | 11 +----------
 conex/hermitian_psd.cc     | 26 ++++++++++++++++++++++++++
 conex/linear_constraint.cc |  5 +++++
 conex/psd_constraint.cc    |  6 ++++++
 4 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index e8f59c7..577566b 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -550,20 +550,11 @@ bool SolveProgram(Program& prog, const SolverConfiguration& requested_config,
         newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
     y2 = solver->Solve(bres);
 
+    newton_step_parameters.affine = true;
     newton_step_parameters.e_weight = 0;
     newton_step_parameters.c_weight = 0;
     Ref y2map(y2.data(), y2.rows(), y2.cols());
     StepInfo info;
-    // The affine step may leave the cone unless its norm is less than one. A
-    // point that is not in the cone must not initialize the next solve.
-    WeightedSlackEigenvalues step;
-    GetWeightedSlackEigenvalues(&prog.kkt_system_manager_, y2map,
-                                newton_step_parameters.c_weight, &step);
-    if (!(step.frobenius_norm_squared < 1)) {
-      prog.requires_coldstart_ = true;
-    }
-
-    newton_step_parameters.affine = true;
     PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
                 &info);
   }
diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 7d33169..95c5386 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -30,6 +30,26 @@ bool TakeStep(HermitianPsdConstraint<T>* o, const StepOptions& opt) {
   return true;
 }
 
+namespace {
+// Evaluates definiteness using the matrix that represents left multiplication
+// by x over the reals.
+template <typename T>
+bool IsPositiveDefinite(const typename T::Matrix& x) {
+  const int d = T::HyperComplexDimension();
+  const int n = x.at(0).rows();
+  MatrixXd y(d * n, d * n);
+  for (int j = 0; j < d; j++) {
+    auto e = T::Zero(n, n);
+    e.at(j).diagonal().setConstant(1);
+    const auto xe = T::Multiply(x, e);
+    for (int i = 0; i < d; i++) {
+      y.block(i * n, j * n, n, n) = xe.at(i);
+    }
+  }
+  return y.llt().info() == Eigen::Success;
+}
+}  // namespace
+
 template <typename T>
 void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
                  const Ref& y, StepInfo* info) {
@@ -74,6 +94,12 @@ void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
   if (norminf * norminf * n < info->normsqrd) {
     norminf = std::sqrt(info->normsqrd / n);
   }
+
+  // The norm is not defined if rounding errors, or an affine step, have moved
+  // the scaling point out of the cone.
+  if (!IsPositiveDefinite<T>(o->W)) {
+    norminf = std::numeric_limits<double>::infinity();
+  }
   info->norminfd = norminf;
 }
 
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index df5811f..ab030ec 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -119,6 +119,11 @@ void PrepareStep(LinearConstraint* o, const StepOptions& options, const Ref& y,
     d.array() += options.e_weight;
 
     double norminf = (d).array().abs().maxCoeff();
+    // The norm is not defined if an affine step has moved the scaling point out
+    // of the cone.
+    if (!(o->workspace_.W.array() >= 0).all()) {
+      norminf = std::numeric_limits<double>::infinity();
+    }
     info->norminfd = norminf;
     info->normsqrd = d.squaredNorm();
 
diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 39a810f..1213894 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -86,6 +86,12 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
     norminf = std::sqrt(norm2 / n);
   }
 
+  // The norm is not defined if rounding errors, or an affine step, have moved
+  // the scaling point out of the cone.
+  if (W.llt().info() != Eigen::Success) {
+    norminf = std::numeric_limits<double>::infinity();
+  }
+
   info->norminfd = norminf;
   info->normsqrd = norm2;
 }
-- 
2.43.0


From 056b654a9c6c47b4617446c20f50d43685fe4788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 27/33] fix: rows of linear inequalities are scaled without
 overflow

---
 conex/linear_constraint.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index ab030ec..3d3db34 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -19,26 +19,32 @@ void AppendRow(MatrixXd* A, const MatrixXd& new_rows) {
   A->bottomRows(new_rows.rows()) = new_rows;
 }
 
+// Computed such that squaring neither overflows nor underflows, in which case
+// the row would be dropped.
+double InverseRowNorm(const MatrixXd& row, double bound) {
+  double max = std::max(row.lpNorm<Eigen::Infinity>(), std::fabs(bound));
+  double norm =
+      std::sqrt((row / max).squaredNorm() + (bound / max) * (bound / max));
+  return 1.0 / max / norm;
+}
+
 void PreprocessLinearInequality(const MatrixXd& A, const MatrixXd& lb,
                                 const MatrixXd& ub, MatrixXd* Aineq,
                                 MatrixXd* bineq, MatrixXd* Aeq, MatrixXd* beq) {
   for (int i = 0; i < A.rows(); i++) {
     if (lb.row(i) == ub.row(i)) {
-      double scale =
-          1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+      double scale = InverseRowNorm(A.row(i), ub(i, 0));
       AppendRow(Aeq, scale * A.row(i));
       AppendRow(beq, scale * ub.row(i));
     } else {
       // Negated comparisons: a bound that is not a number is not dropped.
       if (!(ub(i, 0) >= 1e8)) {
-        double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+        double scale = InverseRowNorm(A.row(i), ub(i, 0));
         AppendRow(Aineq, scale * A.row(i));
         AppendRow(bineq, scale * ub.row(i));
       }
       if (!(lb(i, 0) <= -1e8)) {
-        double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + lb.row(i).squaredNorm());
+        double scale = InverseRowNorm(A.row(i), lb(i, 0));
         AppendRow(Aineq, -scale * A.row(i));
         AppendRow(bineq, -scale * lb.row(i));
       }
-- 
2.43.0


From 4612d4e959eb72038ceb8bf4ed76d49948e2b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:58 +0000
Subject: [PATCH 28/33] fix: a pivot that is not a number is not replaced by
 the regularization

---
 conex/RLDLT.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index d945e9a..0c599bb 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -379,7 +379,8 @@ struct rldlt_inplace<Lower> {
       // introduce INF or NaN values. Remark that LAPACK also uses 0 as the
       // cutoff value.
       RealScalar realAkk = numext::real(mat.coeffRef(k, k));
-      bool pivot_is_valid = (abs(realAkk) > 1e-9);
+      // Negated: a pivot that is not a number is not replaced.
+      bool pivot_is_valid = !(abs(realAkk) <= 1e-9);
 
       if (!pivot_is_valid) {
         pivot_is_valid = true;
-- 
2.43.0


From e1103c5fa05790ae2db0b834b70ded8749825bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:58 +0000
Subject: [PATCH 29/33] fix: a Hermitian slack outside of the cone is not
 accepted

---
 conex/hermitian_psd.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 95c5386..6fbfefa 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -95,6 +95,12 @@ void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
     norminf = std::sqrt(info->normsqrd / n);
   }
 
+  // It is also never less than one if the slack is not in the cone.
+  if (norminf < 1 && opt.e_weight == 1 &&
+      !IsPositiveDefinite<T>(T::ScalarMultiply(minus_s, -1))) {
+    norminf = 1;
+  }
+
   // The norm is not defined if rounding errors, or an affine step, have moved
   // the scaling point out of the cone.
   if (!IsPositiveDefinite<T>(o->W)) {
-- 
2.43.0


From 405ab9632cf023f27591d7109c480de5405ffcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:20 +0000
Subject: [PATCH 30/33] fix: a failed allocation of the workspace leaves a
 valid vector

---
 conex/cone_program.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index cdce05c..8b8bfe6 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -192,6 +192,8 @@ class Program {
     auto size = SizeOf(workspaces);
     const bool resize = size > workspace_data_->size();
     if (resize) {
+      // Emptied first: a failed allocation leaves a valid vector behind.
+      workspace_data_->resize(0);
       workspace_data_->resize(size);
     }
     Initialize(&workspaces, workspace_data_->data());
-- 
2.43.0


From 10df359d858997cd4b0a8a8c1f206d409df09672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:14 +0000
Subject: [PATCH 31/33] fix: the norm of an octonion step is bounded from above

---
 conex/hermitian_psd.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 6fbfefa..c4405cf 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -182,13 +182,14 @@ void PrepareStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt,
       T::TraceInnerProduct(T::QuadraticRepresentation(o->W, minus_s), minus_s) +
       2 * opt.e_weight * trace_ws + opt.e_weight * opt.e_weight * Rank(*o);
 
-  // TODO(FrankPermenter): replace this heuristic approximation.
-  info->norminfd = 1.0 / 3.0 * (trace_ws + opt.e_weight * Rank(*o));
-
-  // The largest eigenvalue is never less than the root mean square.
-  if (info->norminfd * info->norminfd * Rank(*o) < info->normsqrd) {
-    info->norminfd = std::sqrt(info->normsqrd / Rank(*o));
-  }
+  // The smallest upper bound of the largest eigenvalue, in magnitude, that is
+  // implied by the trace and the sum of squares. It is exact if the rank is at
+  // most two.
+  const double n = Rank(*o);
+  const double mean = (trace_ws + opt.e_weight * n) / n;
+  // Not negative up to rounding.
+  const double variance = std::fabs(info->normsqrd / n - mean * mean);
+  info->norminfd = std::fabs(mean) + std::sqrt((n - 1) * variance);
 }
 
 template <>
-- 
2.43.0


From 79b1cb7503974da5397bcb650873242919f86896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:47 +0000
Subject: [PATCH 32/33] fix: an aborted warm start discards the parameter of
 the aborted step

---
 conex/cone_program.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 577566b..7c74fe7 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -340,6 +340,10 @@ bool SolveProgram(Program& prog, const SolverConfiguration& requested_config,
       std::cout << "i: " << i << ", ";
     }
 #endif
+    if (warmstart_aborted) {
+      // The parameter was chosen for the discarded scaling points.
+      newton_step_parameters.inv_sqrt_mu = 0;
+    }
     bool final_centering =
         (newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max) ||
         (kkt_error > config.kkt_error_tolerance) ||
-- 
2.43.0


From 9c3c7da60ce058706d4cb65977ac8555f2334905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:47 +0000
Subject: [PATCH 33/33] fix: a dense LMI whose slack is not definite is never
 accepted as centered

---
 conex/psd_constraint.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 1213894..e752f3b 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -58,6 +58,7 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   }
 
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
+  const bool slack_is_definite = (-minus_s).llt().info() == Eigen::Success;
   WS = W * minus_s;
 
   int n = Rank(*o);
@@ -86,6 +87,11 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
     norminf = std::sqrt(norm2 / n);
   }
 
+  // It is also never less than one if the slack is not in the cone.
+  if (norminf < 1 && opt.e_weight == 1 && !slack_is_definite) {
+    norminf = 1;
+  }
+
   // The norm is not defined if rounding errors, or an affine step, have moved
   // the scaling point out of the cone.
   if (W.llt().info() != Eigen::Success) {
-- 
2.43.0

