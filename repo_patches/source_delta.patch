From 2e984b1a01273c6aa6748518ba43caebe44d553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 01/28] fix: size the GLPK wrapper's buffers from the problem

The constraint matrix was collected in three stack arrays of 20000 entries
without any bound check: a longer contact sequence or a finer sampling
overran the stack.
---
 src/glpk-wrapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..2295ef6 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -20,6 +20,7 @@
 #include <glpk.h>
 
 #include <iostream>
+#include <vector>
 
 namespace solvers {
 
@@ -44,9 +45,12 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  // GLPK expects indices starting from 1
+  const std::size_t maxNonZeros = (CE.rows() + CI.rows()) * x.size();
+  std::vector<int> ia(1 + maxNonZeros);  // Row indices of each element
+  std::vector<int> ja(1 + maxNonZeros);  // column indices of each element
+  std::vector<double> ar(
+      1 + maxNonZeros);    // numerical values of corresponding elements
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -96,7 +100,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From d8ed17f7d7b2e3b9c746b149244a0bc8fdb24df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 02/28] fix: do not ask GLPK for zero rows or columns

glp_add_rows(lp, 0) aborts the process, so a problem with bounds only could
not be solved.
---
 src/glpk-wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 2295ef6..62d9ee6 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -62,7 +62,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   const int numEqConstraints = (int)(CE.rows());
   const int numIneqConstraints = (int)(CI.rows());
   const int num_constraints_total(numEqConstraints + numIneqConstraints);
-  glp_add_rows(lp, num_constraints_total);
+  if (num_constraints_total > 0) glp_add_rows(lp, num_constraints_total);
   int idrow = 1;  // adds three rows to the problem object
   int idcol = 1;
   int idConsMat = 1;
@@ -91,7 +91,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   }
 
   // COLUMNS
-  glp_add_cols(lp, xsize);
+  if (xsize > 0) glp_add_cols(lp, xsize);
   VectorXd miB =
       minBounds.size() > 0 ? minBounds : VectorXd::Ones(xsize) * UNBOUNDED_DOWN;
   VectorXd maB =
-- 
2.43.0


From 829fb7b79d95177887000bb984a8297c3cf1b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 03/28] fix: keep the host program's GLPK objects alive

glp_free_env at the end of every LP solve destroyed all GLPK problem objects
of the calling thread, including those of the host program.
---
 src/glpk-wrapper.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 62d9ee6..8c5a455 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -37,10 +37,28 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   return type;
 }
 
+namespace {
+// Gives the GLPK environment of the calling thread back after use, unless the
+// host program was already using GLPK: glp_free_env invalidates every problem
+// object of the thread.
+struct GlpkEnvironment {
+  GlpkEnvironment() : created(glp_init_env() == 0) {}
+  ~GlpkEnvironment() {
+    if (created) glp_free_env();
+  }
+  const bool created;
+
+ private:
+  GlpkEnvironment(const GlpkEnvironment&);
+  GlpkEnvironment& operator=(const GlpkEnvironment&);
+};
+}  // namespace
+
 int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
               const MatrixXd& CI, const VectorXd& ci0,
               solvers::Cref_vectorX minBounds, solvers::Cref_vectorX maxBounds,
               VectorXd& x, double& cost) {
+  GlpkEnvironment environment;
   glp_smcp opts;
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
@@ -112,7 +130,6 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   }
   glp_delete_prob(
       lp);  // calls the routine glp_delete_prob, which frees all the memory
-  glp_free_env();
   return res;
 }
 
-- 
2.43.0


From 0355bc103e1fa2a4ffe36cf7192551a9f904a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 04/28] fix: release the GLPK problem when an allocation fails

The bound vectors are allocated while the GLPK problem object is alive; when
that allocation threw, the problem object and the environment leaked.
---
 src/glpk-wrapper.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 8c5a455..0105ab1 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -38,6 +38,18 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
 }
 
 namespace {
+// Owns a GLPK problem object, so that it is released when an allocation fails
+// while the problem is being filled.
+struct GlpkProblem {
+  GlpkProblem() : lp(glp_create_prob()) {}
+  ~GlpkProblem() { glp_delete_prob(lp); }
+  glp_prob* const lp;
+
+ private:
+  GlpkProblem(const GlpkProblem&);
+  GlpkProblem& operator=(const GlpkProblem&);
+};
+
 // Gives the GLPK environment of the calling thread back after use, unless the
 // host program was already using GLPK: glp_free_env invalidates every problem
 // object of the thread.
@@ -62,14 +74,14 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_smcp opts;
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
-  glp_prob* lp;
   // GLPK expects indices starting from 1
   const std::size_t maxNonZeros = (CE.rows() + CI.rows()) * x.size();
   std::vector<int> ia(1 + maxNonZeros);  // Row indices of each element
   std::vector<int> ja(1 + maxNonZeros);  // column indices of each element
   std::vector<double> ar(
       1 + maxNonZeros);    // numerical values of corresponding elements
-  lp = glp_create_prob();  // creates a problem object
+  GlpkProblem problem;     // creates a problem object
+  glp_prob* const lp = problem.lp;
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
   glp_set_obj_dir(lp, GLP_MIN);  // calls the routine glp_set_obj_dir to set the
@@ -128,8 +140,6 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     idrow = 1;
     for (int i = 0; i < xsize; ++i, ++idrow) x(i) = glp_get_col_prim(lp, idrow);
   }
-  glp_delete_prob(
-      lp);  // calls the routine glp_delete_prob, which frees all the memory
   return res;
 }
 
-- 
2.43.0


From fc264e9177c786a776eb97c6192b84b12d6b556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 05/28] fix: allow copying a ContactData without a contact
 model

The copy constructor dereferenced contactPhase_, which is null in a
default-constructed object.
---
 include/hpp/bezier-com-traj/data.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index 0f3912b..e188777 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -33,8 +33,10 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
         ang_(VectorX::Zero(0)) {}
 
   ContactData(const ContactData& other)
-      : contactPhase_(
-            new centroidal_dynamics::Equilibrium(*(other.contactPhase_))),
+      : contactPhase_(other.contactPhase_
+                          ? new centroidal_dynamics::Equilibrium(
+                                *(other.contactPhase_))
+                          : 0),
         Kin_(other.Kin_),
         kin_(other.kin_),
         Ang_(other.Ang_),
-- 
2.43.0


From 64c0135996f06ad228f4832d3b56ac16ec51f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 06/28] fix: initialise the angular momentum of a ProblemData

---
 include/hpp/bezier-com-traj/data.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index e188777..a71bdb7 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -101,6 +101,7 @@ struct BEZIER_COM_TRAJ_DLLAPI ProblemData {
         dc1_(point_t::Zero()),
         ddc1_(point_t::Zero()),
         j1_(point_t::Zero()),
+        l0_(point_t::Zero()),
         useAngularMomentum_(false),
         costFunction_(ACCELERATION),
         representation_(DOUBLE_DESCRIPTION) {}
-- 
2.43.0


From 12108b4ca8dce287765da4e08359ad584a20f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 07/28] fix: refuse to plan without the stability inequalities

The status of getPolytopeInequalities was ignored (or only asserted), so
that a failing contact model led to plans without stability constraints.
---
 src/common_solve_methods.cpp |  5 ++++-
 src/computeCOMTraj.cpp       | 21 +++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..32d978c 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -98,7 +98,10 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
          centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP);
   centroidal_dynamics::MatrixXX Hrow;
   VectorX h;
-  cData.contactPhase_->getPolytopeInequalities(Hrow, h);
+  if (cData.contactPhase_->getPolytopeInequalities(Hrow, h) !=
+      centroidal_dynamics::LP_STATUS_OPTIMAL)
+    throw std::runtime_error(
+        "Error in centroidal dynamics lib while computing inequalities");
   MatrixXX H = -Hrow;
   H.rowwise().normalize();
   int dimH = (int)(H.rows());
diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..20e2f3e 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -90,6 +90,18 @@ std::vector<int> stepIdPerPhase(
   return res;
 }
 
+/**
+ * @brief getInequalities retrieve the stability inequalities of a contact
+ * phase, and throw if they are not available
+ */
+void getInequalities(const ContactData& phase,
+                     centroidal_dynamics::MatrixXX& Hrow, VectorX& h) {
+  if (phase.contactPhase_->getPolytopeInequalities(Hrow, h) !=
+      centroidal_dynamics::LP_STATUS_OPTIMAL)
+    throw std::runtime_error(
+        "Error in centroidal dynamics lib while computing inequalities");
+}
+
 long int computeNumIneq(const ProblemData& pData, const VectorX& Ts,
                         const std::vector<int>& phaseSwitch) {
   const size_t numPoints = phaseSwitch.back() + 1;
@@ -100,7 +112,7 @@ long int computeNumIneq(const ProblemData& pData, const VectorX& Ts,
   centroidal_dynamics::MatrixXX Hrow;
   VectorX h;
   for (int i = 0; i < Ts.size(); ++i) {
-    pData.contacts_[i].contactPhase_->getPolytopeInequalities(Hrow, h);
+    getInequalities(pData.contacts_[i], Hrow, h);
     numStepForPhase =
         phaseSwitch[i] + 1 - numStepsCumulated;  // pointsPerPhase;
     numStepsCumulated = phaseSwitch[i] + 1;
@@ -122,10 +134,7 @@ void updateH(const ProblemData& pData, const ContactData& phase, MatrixXX& mH,
              VectorX& h, int& dimH) {
   VectorX hrow;
   centroidal_dynamics::MatrixXX Hrow;
-  centroidal_dynamics::LP_status status =
-      phase.contactPhase_->getPolytopeInequalities(Hrow, hrow);
-  assert(status == centroidal_dynamics::LP_STATUS_OPTIMAL &&
-         "Error in centroidal dynamics lib while computing inequalities");
+  getInequalities(phase, Hrow, hrow);
   mH = -Hrow * phase.contactPhase_->m_mass;
   mH.rowwise().normalize();
   h = hrow;
@@ -364,7 +373,7 @@ long int computeNumIneqContinuous(const ProblemData& pData, const VectorX& Ts,
     num_ineq += it->kin_.rows() * (degree + 1);
     // stability :
     if (useDD) {
-      it->contactPhase_->getPolytopeInequalities(Hrow, h);
+      getInequalities(*it, Hrow, h);
       num_ineq += Hrow.rows() * (w_degree + 1);
     }
   }
-- 
2.43.0


From b1bed6bd5bfc5ecda6cec93b8e7e638a8bef31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 08/28] fix: constrain the angular momentum with its own limits

The kinematic constraints were applied to the angular momentum variable,
overwriting rows of other constraints when the sizes differ.
---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 32d978c..ad44d58 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -127,7 +127,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From d1a5f2f7d0a533c776d23f42b67edd4c9df8427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 09/28] fix: allocate all the rows of the upper bounds

---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From 5da3574ac6a8f34ca450f21cc3c215281f572093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 10/28] fix: keep the QP solver usable after a failed
 allocation

reset() recorded the new sizes before allocating the buffers, so that the
next solve of the same size used buffers of the wrong size.
---
 src/eiquadprog-fast.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..27c6e96 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -50,9 +50,8 @@ EiquadprogFast::EiquadprogFast() {
 EiquadprogFast::~EiquadprogFast() {}
 
 void EiquadprogFast::reset(int nVars, int nEqCon, int nIneqCon) {
-  m_nVars = nVars;
-  m_nEqCon = nEqCon;
-  m_nIneqCon = nIneqCon;
+  // the sizes are only valid once every buffer has been allocated
+  m_nVars = -1;
   m_J.setZero(nVars, nVars);
   chol_.compute(m_J);
   R.resize(nVars, nVars);
@@ -72,6 +71,9 @@ void EiquadprogFast::reset(int nVars, int nEqCon, int nIneqCon) {
 #ifdef OPTIMIZE_ADD_CONSTRAINT
   T1.resize(nVars);
 #endif
+  m_nVars = nVars;
+  m_nEqCon = nEqCon;
+  m_nIneqCon = nIneqCon;
 }
 
 bool EiquadprogFast::add_constraint(MatrixXd& R, MatrixXd& J, VectorXd& d,
-- 
2.43.0


From d71524352a8a359c582efbb8a3714fdcfb6b26cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 11/28] fix: stay inside the working set of the QP solver

delete_constraint accessed the element after the last one when every
constraint is active, the roll back of a degenerate constraint used the
negative ids of equalities as indices, and more equalities than variables
were written outside of the factorisation.
---
 src/eiquadprog-fast.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 27c6e96..fa24727 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -176,10 +176,15 @@ void EiquadprogFast::delete_constraint(MatrixXd& R, MatrixXd& J, VectorXi& A,
     R.col(i) = R.col(i + 1);
   }
 
-  A(iq - 1) = A(iq);
-  u(iq - 1) = u(iq);
-  A(iq) = 0;
-  u(iq) = 0.0;
+  if (iq < A.size()) {
+    A(iq - 1) = A(iq);
+    u(iq - 1) = u(iq);
+    A(iq) = 0;
+    u(iq) = 0.0;
+  } else {
+    A(iq - 1) = 0;
+    u(iq - 1) = 0.0;
+  }
   for (j = 0; j < iq; j++) R(j, iq - 1) = 0.0;
   /* constraint has been fully removed */
   iq--;
@@ -330,6 +335,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR);
   iq = 0;
   for (i = 0; i < nEqCon; i++) {
+    // no independent equality can be left
+    if (iq >= nVars) return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
     np = CE.row(i);
     compute_d(d, m_J, np);
@@ -615,7 +622,7 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
@@ -752,6 +759,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR);
   iq = 0;
   for (i = 0; i < nEqCon; i++) {
+    // no independent equality can be left
+    if (iq >= nVars) return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
     np = CE.row(i);
     compute_d(d, m_J, np);
@@ -1037,7 +1046,7 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
-- 
2.43.0


From 86ac6454fc60a2983cdeba8a6613078c2693eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 12/28] fix: keep the jerk constrained waypoints in the
 trajectory

---
 include/hpp/bezier-com-traj/utils.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
-- 
2.43.0


From a80acf8b4fab45bb3912642931979b298d8cbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 13/28] fix: scale the continuous acceleration constraints with
 the duration

---
 src/computeCOMTraj.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 20e2f3e..f92c921 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -508,10 +508,11 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add acceleration constraints :
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
          wpit != ddcs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
+      // the waypoints of a derivative are scaled by mult_T_
+      A.block(id_rows, 0, 3, 3) = ddcs.mult_T_ * wpit->first;  // upper
+      b.segment(id_rows, 3) = acc_bounds - ddcs.mult_T_ * wpit->second;
+      A.block(id_rows + 3, 0, 3, 3) = -ddcs.mult_T_ * wpit->first;  // lower
+      b.segment(id_rows + 3, 3) = acc_bounds + ddcs.mult_T_ * wpit->second;
       id_rows += 6;
     }
   }
-- 
2.43.0


From 55a720e1e92fe3def20ee8d722efad3ad737c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 14/28] fix: use the right waypoints in jerk constrained curves

The evaluation formulas used the final position in place of the initial
one, and one acceleration waypoint used it in place of its neighbour.
---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..efd164c 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -21,8 +21,8 @@ static const size_t DIM_POINT = 3;
 /**
  * @brief evaluateCurveAtTime compute the expression of the point on the curve
  * at t, defined by the waypoint pi and one free waypoint (x)
- * @param pi constant waypoints of the curve, assume pi[8] pi[1] pi[2] pi[3] x
- * pi[4] pi[5] pi[6] pi[7]
+ * @param pi constant waypoints of the curve, assume pi[0] pi[1] pi[2] pi[3] x
+ * pi[5] pi[6] pi[7] pi[8]
  * @param t param (normalized !)
  * @return the expression of the waypoint such that wp.first . x + wp.second =
  * point on curve
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
@@ -436,7 +436,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
-- 
2.43.0


From 745ca3aaa48dae2205ac2c94d2c4336ecc66bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 15/28] fix: compute the wrench of jerk constrained curves

computeWwaypoints used the formulas of the degree 6 curve without jerk
constraints, so that stability was enforced for another curve.
---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 178 +++---------------
 1 file changed, 31 insertions(+), 147 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index efd164c..e625f38 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -6,6 +6,7 @@
  * Author: Pierre Fernbach
  */
 
+#include <algorithm>
 #include <hpp/bezier-com-traj/data.hh>
 
 namespace bezier_com_traj {
@@ -210,157 +211,40 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
+  const int n = 8;      // degree of c
+  const int m = n - 2;  // degree of ddc
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  std::vector<Matrix3> Cpi;
-  for (std::size_t i = 0; i < pi.size(); ++i) {
-    Cpi.push_back(skew(pi[i]));
-  }
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
   const Matrix3 Cg = skew(g);
-  const double T2 = T * T;
-  const double alpha = 1 / (T2);
+  const double alpha = n * (n - 1) / (T * T);
 
-  // equation of waypoints for curve w found with sympy
-  waypoint_t w0 = initwp(DIM_POINT, DIM_VAR);
-  w0.second.head<3>() = (30 * pi[0] - 60 * pi[1] + 30 * pi[2]) * alpha;
-  w0.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[0] - 60.0 * Cpi[0] * pi[1] + 30.0 * Cpi[0] * pi[2]) *
-      alpha;
-  wps.push_back(w0);
-  waypoint_t w1 = initwp(DIM_POINT, DIM_VAR);
-  w1.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w1.first.block<3, 3>(3, 0) = 13.3333333333333 * Cpi[0] * alpha;
-  w1.second.head<3>() =
-      1.0 * (16.6666666666667 * pi[0] - 20.0 * pi[1] - 10.0 * pi[2]) * alpha;
-  w1.second.tail<3>() = 1.0 *
-                        (0.333333333333333 * Cg * T2 * pi[0] +
-                         0.666666666666667 * Cg * T2 * pi[1] -
-                         30.0 * Cpi[0] * pi[2] + 20.0 * Cpi[1] * pi[2]) *
-                        alpha;
-  wps.push_back(w1);
-  waypoint_t w2 = initwp(DIM_POINT, DIM_VAR);
-  w2.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w2.first.block<3, 3>(3, 0) =
-      1.0 * (-13.3333333333333 * Cpi[0] + 20.0 * Cpi[1]) * alpha;
-  w2.second.head<3>() =
-      1.0 * (8.33333333333333 * pi[0] - 20.0 * pi[2] + 5.0 * pi[4]) * alpha;
-  w2.second.tail<3>() =
-      1.0 *
-      (0.0833333333333334 * Cg * T2 * pi[0] + 0.5 * Cg * T2 * pi[1] +
-       0.416666666666667 * Cg * T2 * pi[2] + 5.0 * Cpi[0] * pi[4] -
-       20.0 * Cpi[1] * pi[2]) *
-      alpha;
-  wps.push_back(w2);
-  waypoint_t w3 = initwp(DIM_POINT, DIM_VAR);
-  w3.first.block<3, 3>(0, 0) = -5.71428571428572 * alpha * Matrix3::Identity();
-  w3.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 - 20.0 * Cpi[1] +
-                                14.2857142857143 * Cpi[2]) *
-                               alpha;
-  w3.second.head<3>() = 1.0 *
-                        (3.57142857142857 * pi[0] + 7.14285714285714 * pi[1] -
-                         14.2857142857143 * pi[2] + 7.85714285714286 * pi[4] +
-                         1.42857142857143 * pi[5]) *
-                        alpha;
-  w3.second.tail<3>() =
-      1.0 *
-      (0.0119047619047619 * Cg * T2 * pi[0] +
-       0.214285714285714 * Cg * T2 * pi[1] +
-       0.535714285714286 * Cg * T2 * pi[2] - 5.0 * Cpi[0] * pi[4] +
-       1.42857142857143 * Cpi[0] * pi[5] + 12.8571428571429 * Cpi[1] * pi[4]) *
-      alpha;
-  wps.push_back(w3);
-  waypoint_t w4 = initwp(DIM_POINT, DIM_VAR);
-  w4.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w4.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[2]) * alpha;
-  w4.second.head<3>() = 1.0 *
-                        (1.19047619047619 * pi[0] + 7.14285714285714 * pi[1] -
-                         3.57142857142857 * pi[2] + 5.0 * pi[4] +
-                         4.28571428571429 * pi[5] + 0.238095238095238 * pi[6]) *
-                        alpha;
-  w4.second.tail<3>() =
-      1.0 *
-      (0.0476190476190471 * Cg * T2 * pi[1] +
-       0.357142857142857 * Cg * T2 * pi[2] +
-       0.119047619047619 * Cg * T2 * pi[4] - 1.42857142857143 * Cpi[0] * pi[5] +
-       0.238095238095238 * Cpi[0] * pi[6] - 12.8571428571429 * Cpi[1] * pi[4] +
-       5.71428571428571 * Cpi[1] * pi[5] + 17.8571428571429 * Cpi[2] * pi[4]) *
-      alpha;
-  wps.push_back(w4);
-  waypoint_t w5 = initwp(DIM_POINT, DIM_VAR);
-  w5.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w5.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[4]) * alpha;
-  w5.second.head<3>() = 1.0 *
-                        (0.238095238095238 * pi[0] + 4.28571428571429 * pi[1] +
-                         5.0 * pi[2] - 3.57142857142857 * pi[4] +
-                         7.14285714285714 * pi[5] + 1.19047619047619 * pi[6]) *
-                        alpha;
-  w5.second.tail<3>() =
-      1.0 *
-      (+0.11904761904762 * Cg * T2 * pi[2] +
-       0.357142857142857 * Cg * T2 * pi[4] +
-       0.0476190476190476 * Cg * T2 * pi[5] -
-       0.238095238095238 * Cpi[0] * pi[6] - 5.71428571428572 * Cpi[1] * pi[5] +
-       1.42857142857143 * Cpi[1] * pi[6] - 17.8571428571429 * Cpi[2] * pi[4] +
-       12.8571428571429 * Cpi[2] * pi[5]) *
-      alpha;
-  wps.push_back(w5);
-  waypoint_t w6 = initwp(DIM_POINT, DIM_VAR);
-  w6.first.block<3, 3>(0, 0) = -5.71428571428571 * alpha * Matrix3::Identity();
-  w6.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 +
-                                14.2857142857143 * Cpi[4] - 20.0 * Cpi[5]) *
-                               alpha;
-  w6.second.head<3>() = 1.0 *
-                        (1.42857142857143 * pi[1] + 7.85714285714286 * pi[2] -
-                         14.2857142857143 * pi[4] + 7.14285714285715 * pi[5] +
-                         3.57142857142857 * pi[6]) *
-                        alpha;
-  w6.second.tail<3>() =
-      1.0 *
-      (0.535714285714286 * Cg * T2 * pi[4] +
-       0.214285714285714 * Cg * T2 * pi[5] +
-       0.0119047619047619 * Cg * T2 * pi[6] -
-       1.42857142857143 * Cpi[1] * pi[6] - 12.8571428571429 * Cpi[2] * pi[5] +
-       5.0 * Cpi[2] * pi[6]) *
-      alpha;
-  wps.push_back(w6);
-  waypoint_t w7 = initwp(DIM_POINT, DIM_VAR);
-  w7.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w7.first.block<3, 3>(3, 0) =
-      1.0 * (20.0 * Cpi[5] - 13.3333333333333 * Cpi[6]) * alpha;
-  w7.second.head<3>() =
-      1.0 * (5.0 * pi[2] - 20.0 * pi[4] + 8.33333333333333 * pi[6]) * alpha;
-  w7.second.tail<3>() =
-      1.0 *
-      (0.416666666666667 * Cg * T2 * pi[4] + 0.5 * Cg * T2 * pi[5] +
-       0.0833333333333333 * Cg * T2 * pi[6] - 5.0 * Cpi[2] * pi[6] +
-       20.0 * Cpi[4] * pi[5]) *
-      alpha;
-  wps.push_back(w7);
-  waypoint_t w8 = initwp(DIM_POINT, DIM_VAR);
-  w8.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w8.first.block<3, 3>(3, 0) = 1.0 * (13.3333333333333 * Cpi[6]) * alpha;
-  w8.second.head<3>() =
-      1.0 *
-      (-9.99999999999999 * pi[4] - 20.0 * pi[5] + 16.6666666666667 * pi[6]) *
-      alpha;
-  w8.second.tail<3>() = 1.0 *
-                        (0.666666666666667 * Cg * T2 * pi[5] +
-                         0.333333333333333 * Cg * T2 * pi[6] -
-                         20.0 * Cpi[4] * pi[5] + 30.0 * Cpi[4] * pi[6]) *
-                        alpha;
-  wps.push_back(w8);
-  waypoint_t w9 = initwp(DIM_POINT, DIM_VAR);
-  w9.second.head<3>() = (30 * pi[4] - 60 * pi[5] + 30 * pi[6]) * alpha;
-  w9.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[6] - 30.0 * Cpi[4] * pi[6] + 60.0 * Cpi[5] * pi[6]) *
-      alpha;
-  wps.push_back(w9);
+  // waypoints of c and ddc, as coef.first * x + coef.second
+  std::vector<coefs_t> c, ddc;
+  for (int i = 0; i <= n; ++i) c.push_back(coefs_t(i == 4 ? 1. : 0., pi[i]));
+  for (int i = 0; i <= m; ++i)
+    ddc.push_back(coefs_t(
+        alpha * (c[i].first - 2. * c[i + 1].first + c[i + 2].first),
+        alpha * (c[i].second - 2. * c[i + 1].second + c[i + 2].second)));
+
+  // w = [ddc ; c x ddc + g x c], product of curves of degree n and m
+  for (int k = 0; k <= n + m; ++k) {
+    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
+    for (int i = std::max(0, k - m); i <= std::min(n, k); ++i) {
+      const coefs_t& ci = c[i];
+      const coefs_t& ai = ddc[k - i];
+      const double coef = (double)ndcurves::bin(n, i) *
+                          (double)ndcurves::bin(m, k - i) /
+                          (double)ndcurves::bin(n + m, k);
+      w.first.block<3, 3>(0, 0) += coef * ai.first * Matrix3::Identity();
+      w.second.head<3>() += coef * ai.second;
+      w.first.block<3, 3>(3, 0) +=
+          coef * (ai.first * skew(ci.second) - ci.first * skew(ai.second) +
+                  ci.first * Cg);
+      w.second.tail<3>() +=
+          coef * (ci.second.cross(ai.second) + Cg * ci.second);
+    }
+    wps.push_back(w);
+  }
   return wps;
 }
 
-- 
2.43.0


From db43368bcb377465930ee1eb382cd221ad195418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 16/28] fix: do not take a constraint at the origin for the
 free waypoint

A constant waypoint equal to zero was replaced by the variable, so that the
continuous formulation constrained another curve.
---
 src/waypoints_definition.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..e344e22 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -300,13 +300,21 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   const int DIM_VAR = dimVar(pData);
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  // the free waypoints are those between the initial and final constraints
+  const ConstraintFlag flag = pData.constraints_.flag_;
+  const ConstraintFlag init[] = {INIT_POS, INIT_VEL, INIT_ACC, INIT_JERK};
+  const ConstraintFlag end[] = {END_POS, END_VEL, END_ACC, END_JERK};
+  std::size_t firstFree = 0, lastFree = pts.size();
+  for (int i = 0; i < 4; ++i) {
+    if (flag & init[i]) ++firstFree;
+    if ((flag & END_POS) && (flag & end[i])) --lastFree;
+  }
+  for (std::size_t i = 0; i < pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
+    if (i >= firstFree && i < lastFree) {
       w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From 30981d895519ed283fe7ffd0976db3419fc7298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 17/28] fix: reject a request without contact phases

It accessed the first element of empty containers.
---
 src/computeCOMTraj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index f92c921..9c86144 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -545,6 +545,7 @@ ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
     throw std::runtime_error(
         "Time phase vector has different size than the number of contact "
         "phases");
+  if (Ts.size() == 0) throw std::runtime_error("No contact phase is given");
   double T = Ts.sum();
   T_time timeArray = computeDiscretizedTimeFixed(Ts, pointsPerPhase);
   std::pair<MatrixXX, VectorX> Ab =
@@ -566,6 +567,7 @@ ResultDataCOMTraj computeCOMTraj(const ProblemData& pData, const VectorX& Ts,
     throw std::runtime_error(
         "Time phase vector has different size than the number of contact "
         "phases");
+  if (Ts.size() == 0) throw std::runtime_error("No contact phase is given");
   double T = Ts.sum();
   T_time timeArray;
   std::pair<MatrixXX, VectorX> Ab;
-- 
2.43.0


From 65a3fb3586814e4218371b747a62514d8f4deb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 18/28] fix: reject a request without points per phase

It read before the beginning of the list of phase switches.
---
 src/computeCOMTraj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 9c86144..aceb1c6 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -546,6 +546,8 @@ ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
         "Time phase vector has different size than the number of contact "
         "phases");
   if (Ts.size() == 0) throw std::runtime_error("No contact phase is given");
+  if (pointsPerPhase == 0)
+    throw std::runtime_error("At least one point per phase is required");
   double T = Ts.sum();
   T_time timeArray = computeDiscretizedTimeFixed(Ts, pointsPerPhase);
   std::pair<MatrixXX, VectorX> Ab =
-- 
2.43.0


From 53a0dc83667fb396057f5b0b7cc4b15f5804d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 19/28] fix: do not advance an iterator past the end of the
 contacts

---
 src/computeCOMTraj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index aceb1c6..9cef2f7 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -400,10 +400,10 @@ long int computeNumEqContinuous(const ProblemData& pData, const int w_degree,
     long int cSize = 0;
     int currentDegree;  // remove redundant equalities depending on more
                         // constraining problem
-    std::vector<ContactData>::const_iterator it2 = pData.contacts_.begin();
-    ++it2;
+    std::vector<ContactData>::const_iterator it2;
     for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
-         it != pData.contacts_.end(); ++it, ++it2) {
+         it != pData.contacts_.end(); ++it) {
+      it2 = it + 1;
       currentDegree = w_degree + 1;
       if (cSize != 0 && it->contactPhase_->m_G_centr.cols() > cSize)
         currentDegree -= 1;
-- 
2.43.0


From 9823f3124b01cc1869611557fefa8e177eeb42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 20/28] fix: report dependent equalities that cannot be
 satisfied

---
 src/eiquadprog-fast.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index fa24727..60b0e2a 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -356,6 +356,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
     if (std::abs(z.dot(z)) >
         std::numeric_limits<double>::epsilon())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    else if (std::abs(np.dot(x) + ce0(i)) > 1e-8 * (1. + std::abs(ce0(i))))
+      // no step can satisfy this equality
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
 
     x += t2 * z;
 
-- 
2.43.0


From daed10ef333c2cd946263f31e87bfb0fc23a59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 21/28] fix: invert the sparse factor of the Hessian

---
 src/eiquadprog-fast.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 60b0e2a..9b6e7ac 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -703,7 +703,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   c1 = trace_sparse(Hess);
 
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
-  Eigen::SimplicialLLT<SpMat, Eigen::Lower> cholsp_(Hess);
+  // without permutation: the factor is used on its own below
+  Eigen::SimplicialLLT<SpMat, Eigen::Lower, Eigen::NaturalOrdering<int> >
+      cholsp_(Hess);
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
 
   /* initialize the matrix R */
@@ -718,7 +720,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
 #ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
+    cholsp_.matrixU().solveInPlace(m_J);
 #else
     m_J = cholsp_.matrixU().solve(m_J);
 #endif
-- 
2.43.0


From a5a45c61fbb5dd6db3eb65d46111a61235c653b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 22/28] fix: report unsatisfiable equalities in the sparse
 interface too

---
 src/eiquadprog-fast.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 9b6e7ac..d98da33 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -785,6 +785,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     if (std::abs(z.dot(z)) >
         std::numeric_limits<double>::epsilon())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    else if (std::abs(np.dot(x) + ce0(i)) > 1e-8 * (1. + std::abs(ce0(i))))
+      // no step can satisfy this equality
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
 
     x += t2 * z;
 
-- 
2.43.0


From 67a75834d3fe8fe729c4588ae79b649d1829023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 23/28] fix: write constraint files in the classic locale

---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index b1217d2..8594e9e 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -123,6 +123,7 @@ void printQHullFile(const std::pair<MatrixXX, VectorX>& Ab, VectorX intPoint,
   using std::endl;
   std::string path("/local/fernbac/bench_iros18/constraints_obj/");
   path.append(fileName);
+  file.imbue(std::locale::classic());  // qhull reads '.' as decimal separator
   file.open(path.c_str(), std::ios::out | std::ios::trunc);
   file << "3 1" << endl;
   file << "\t " << intPoint[0] << "\t" << intPoint[1] << "\t" << intPoint[2]
-- 
2.43.0


From ca316a6912a2c86e81d742e1e9772f1eb2b21256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 24/28] fix: report the terminal state of every plan

solve0step and solveEndEffector left dc1_ and ddc1_ at zero.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 ++
 src/solve_0_step.cpp                              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..428a5a9 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -274,6 +274,8 @@ void computeC_of_T(const ProblemData& pData, double T, ResultDataCOMTraj& res) {
     wps[8] = res.x.segment<3>(12);
   }
   res.c_of_t_ = bezier_t(wps.begin(), wps.end(), 0, T);
+  res.dc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 1);
+  res.ddc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 2);
   if (verbose)
     std::cout << "bezier curve created, size = " << res.c_of_t_.size_
               << std::endl;
diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index e9a3b64..a45686d 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -213,6 +213,8 @@ void computeC_of_T(const ProblemData& pData, const std::vector<double>& Ts,
   wps.push_back(res.x.head(3));
   wps.push_back(res.x.head(3));
   res.c_of_t_ = bezier_t(wps.begin(), wps.end(), 0., Ts[0]);
+  res.dc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 1);
+  res.ddc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 2);
 }
 
 void computedL_of_T(const ProblemData& pData, const std::vector<double>& Ts,
-- 
2.43.0


From 1a5936857aca972c49d35a165b3e1809628e296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 25/28] fix: report the cost of end-effector plans

A successful reply carried -1, the cost of a failed one.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 428a5a9..0a6a015 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -456,6 +456,7 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
   if (resQp.success_) {
     res.success_ = true;
     res.x = resQp.x;
+    res.cost_ = resQp.cost_;
     // computeRealCost(pData, res);
     computeC_of_T(pData, T, res);
     // computedL_of_T(pData,Ts,res);
-- 
2.43.0


From c8ac80dd1c9d67f3090a8499a1d498266043c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 26/28] fix: discretise waypoint curves of any degree

---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index ad44d58..fdaa9e6 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -12,7 +12,7 @@ std::vector<waypoint6_t> ComputeDiscretizedWaypoints(
   std::vector<waypoint6_t> res;
   for (int i = 0; i < numSteps + 1; ++i) {
     waypoint6_t w = initwp<waypoint6_t>();
-    for (int j = 0; j < 5; ++j) {
+    for (std::size_t j = 0; j < wps.size(); ++j) {
       double b = berns[j](i * dt);
       w.first += b * (wps[j].first);
       w.second += b * (wps[j].second);
-- 
2.43.0


From 5f3d8c02dcd2a9a7f71cc1165135403de73f5540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 27/28] fix: unconstrained minimum from a supplied inverse has
 the wrong sign

With the Hessian's inverse factor supplied by the caller the solver started
from +H^-1 g instead of -H^-1 g (the negation is compiled out with
OPTIMIZE_UNCONSTR_MINIM) and reported points that are no minimum as optimal.
---
 src/eiquadprog-fast.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index d98da33..19e4615 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -311,17 +311,15 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = -(m_J * (m_J.transpose() * g0));
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     x = -g0;
     chol_.solveInPlace(x);
-  }
 #else
-    x = chol_.solve(g0);
-  }
-  x = -x;
+    x = -chol_.solve(g0);
 #endif
+  }
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
 #ifdef TRACE_SOLVER
@@ -740,17 +738,15 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = -(m_J * (m_J.transpose() * g0));
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     // x = -g0;
     x = cholsp_.solve(-g0);
-  }
 #else
-    x = cholsp_.solve(g0);
-  }
-  x = -x;
+    x = -cholsp_.solve(g0);
 #endif
+  }
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
 #ifdef TRACE_SOLVER
-- 
2.43.0


From 36027cc5547febcb7bc81a4766d1773f79533b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 28/28] fix: keep an inverse supplied by the caller when the QP
 solver resizes

solve_quadprog() called reset() on a fresh or resized solver, which zeroed the
factor the caller had just stored in m_J; the zero factor then made any
point satisfying the inequalities look optimal.
---
 src/eiquadprog-fast.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 19e4615..cb9d55a 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -52,7 +52,9 @@ EiquadprogFast::~EiquadprogFast() {}
 void EiquadprogFast::reset(int nVars, int nEqCon, int nIneqCon) {
   // the sizes are only valid once every buffer has been allocated
   m_nVars = -1;
-  m_J.setZero(nVars, nVars);
+  // an inverse provided by the caller is kept
+  if (!is_inverse_provided_ || m_J.rows() != nVars || m_J.cols() != nVars)
+    m_J.setZero(nVars, nVars);
   chol_.compute(m_J);
   R.resize(nVars, nVars);
   s.resize(nIneqCon);
-- 
2.43.0

