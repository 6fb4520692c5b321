From 2702bfad2e01fc5689cae6adeb9f63013e871dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:41 +0000
Subject: [PATCH 01/27] sim: hooks for deterministic simulation, compiled in
 only with FEELLGOOD_SIM

---
 src/sim_hooks.h                | 46 ++++++++++++++++++++++++++++++++++
 src/solver.cpp                 |  3 +++
 src/spinAccumulationSolver.cpp |  3 +++
 src/time_integration.cpp       |  3 +++
 4 files changed, 55 insertions(+)
 create mode 100644 src/sim_hooks.h

diff --git a/src/sim_hooks.h b/src/sim_hooks.h
new file mode 100644
index 0000000..5ce63a1
--- /dev/null
+++ b/src/sim_hooks.h
@@ -0,0 +1,46 @@
+#ifndef sim_hooks_h
+#define sim_hooks_h
+
+/** \file sim_hooks.h
+\brief hooks for running feeLLGood inside a deterministic simulator
+
+They are compiled in only if FEELLGOOD_SIM is defined, which no regular build does. The two
+functions are then provided by the simulator.
+*/
+
+#ifdef FEELLGOOD_SIM
+
+#include <vector>
+#include "mesh.h"
+
+/** returns non zero if the simulator wants the operation named `site` to fail this time */
+int fg_sim_fault(const char *site);
+
+/** tells the simulator about a state of the simulation; u holds 3*n components of the magnetization,
+ * in the node order of the mesh file */
+void fg_sim_state(const char *what, double t, double dt, int n, const double *u);
+
+/** report the current state of the mesh to the simulator */
+inline void fg_sim_report(const char *what, const double t, const double dt, const Mesh::mesh &msh)
+    {
+    std::vector<double> u(3 * msh.getNbNodes());
+    for (int i = 0; i < msh.getNbNodes(); i++)
+        {
+        const Eigen::Vector3d m = msh.getNode_u(msh.getNodeIndex(i));
+        for (int k = 0; k < 3; k++)
+            { u[3 * i + k] = m[k]; }
+        }
+    fg_sim_state(what, t, dt, msh.getNbNodes(), u.data());
+    }
+
+#define FG_SIM_FAULT(site) fg_sim_fault(site)
+#define FG_SIM_STATE(what, t_prm, msh) fg_sim_report(what, (t_prm).get_t(), (t_prm).get_dt(), msh)
+
+#else
+
+#define FG_SIM_FAULT(site) false
+#define FG_SIM_STATE(what, t_prm, msh) ((void) 0)
+
+#endif
+
+#endif
diff --git a/src/solver.cpp b/src/solver.cpp
index b0968dc..309e167 100644
--- a/src/solver.cpp
+++ b/src/solver.cpp
@@ -1,5 +1,6 @@
 #include "chronometer.h"
 #include "linear_algebra.h"
+#include "sim_hooks.h"
 
 #include "algebra/bicg.h"
 
@@ -58,6 +59,8 @@ bool LinAlgebra::solve(const timing &t_prm)
      * */
     buildInitGuess(Xw);// gamma0 division handled by function buildInitGuess
     algebra::bicg_dir<double>(iter, K, Xw, L_rhs, lvd);
+    if (FG_SIM_FAULT("llg_solver"))
+        { iter.status = algebra::CANNOT_CONVERGE; }
 
     if ((iter.status == algebra::ITER_OVERFLOW)
             || (iter.status == algebra::CANNOT_CONVERGE)
diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 965e84f..13deeff 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -1,5 +1,6 @@
 #include "algebra/bicg.h"
 #include "spinAccumulationSolver.h"
+#include "sim_hooks.h"
 #include "chronometer.h" //date()
 
 using algebra::sq;
@@ -207,6 +208,8 @@ bool spinAcc::solve(void)
 
     std::vector<double> Xw(DIM_PB * NOD);
     algebra::bicg_dir(iter, K, Xw, L_rhs, valDirichlet, idxDirichlet);
+    if (FG_SIM_FAULT("spin_solver"))
+        { iter.status = algebra::CANNOT_CONVERGE; }
 
     for (int i = 0; i < NOD; i++)
         {
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 9ba87dd..ffb33ca 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -6,6 +6,7 @@
 #include "fem.h"
 #include "time_integration.h"
 #include "log-stats.h"
+#include "sim_hooks.h"
 
 /** Logic for finding a reasonable time step. */
 class TimeStepper
@@ -138,6 +139,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                           scal_fmm::fmm &myFMM /**< [in] */, timing &t_prm, int &nt)
     {
     compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
+    FG_SIM_STATE("initial", t_prm, msh);
     std::string baseName = settings.r_path_output_dir + '/' + settings.getSimName();
     std::string str = baseName + ".evol";
     std::ofstream fout(str);
@@ -239,6 +241,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 t_prm.inc_t();
 
             if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
+            FG_SIM_STATE("accepted", t_prm, msh);
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
             stats.max_angle = std::max(stats.max_angle, msh.max_angle());
-- 
2.43.0


From 9e384095da893ed5a2b8541b2897ccb9de46d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:50 +0000
Subject: [PATCH 02/27] sim: hook for time step attempts, compiled in only with
 FEELLGOOD_SIM

---
 src/sim_hooks.h | 9 +++++++--
 src/solver.cpp  | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sim_hooks.h b/src/sim_hooks.h
index 5ce63a1..9fabecf 100644
--- a/src/sim_hooks.h
+++ b/src/sim_hooks.h
@@ -4,8 +4,8 @@
 /** \file sim_hooks.h
 \brief hooks for running feeLLGood inside a deterministic simulator
 
-They are compiled in only if FEELLGOOD_SIM is defined, which no regular build does. The two
-functions are then provided by the simulator.
+They are compiled in only if FEELLGOOD_SIM is defined, which no regular build does. The functions
+are then provided by the simulator.
 */
 
 #ifdef FEELLGOOD_SIM
@@ -16,6 +16,9 @@ functions are then provided by the simulator.
 /** returns non zero if the simulator wants the operation named `site` to fail this time */
 int fg_sim_fault(const char *site);
 
+/** tells the simulator that a time step of length dt starting at time t is being attempted */
+void fg_sim_attempt(double t, double dt);
+
 /** tells the simulator about a state of the simulation; u holds 3*n components of the magnetization,
  * in the node order of the mesh file */
 void fg_sim_state(const char *what, double t, double dt, int n, const double *u);
@@ -34,11 +37,13 @@ inline void fg_sim_report(const char *what, const double t, const double dt, con
     }
 
 #define FG_SIM_FAULT(site) fg_sim_fault(site)
+#define FG_SIM_ATTEMPT(t_prm) fg_sim_attempt((t_prm).get_t(), (t_prm).get_dt())
 #define FG_SIM_STATE(what, t_prm, msh) fg_sim_report(what, (t_prm).get_t(), (t_prm).get_dt(), msh)
 
 #else
 
 #define FG_SIM_FAULT(site) false
+#define FG_SIM_ATTEMPT(t_prm) ((void) 0)
 #define FG_SIM_STATE(what, t_prm, msh) ((void) 0)
 
 #endif
diff --git a/src/solver.cpp b/src/solver.cpp
index 309e167..a93fe6f 100644
--- a/src/solver.cpp
+++ b/src/solver.cpp
@@ -6,6 +6,7 @@
 
 bool LinAlgebra::solve(const timing &t_prm)
     {
+    FG_SIM_ATTEMPT(t_prm);
     chronometer counter(2);
     iter.reset();
 
-- 
2.43.0


From 66bad39ef47cbf585cef8a884d20410b38f3aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 03/27] fix: spin accumulation: start every solve from an empty
 matrix and right-hand side

spinAcc::solve() added the element contributions on top of those of all the previous calls: after
n calls the system was a sum of n systems, built from all the past magnetizations.
---
 src/spinAccumulationSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 13deeff..7be3743 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -167,6 +167,8 @@ bool spinAcc::compute(void)
 bool spinAcc::solve(void)
     {
     iter.reset();
+    K.clear();
+    std::fill(L_rhs.begin(), L_rhs.end(), 0);
 
     for (Tetra::Tet &elem : msh->tet)
         {
-- 
2.43.0


From 7fa3641159ea677e10065d858afbc2f99c110502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 04/27] fix: space dependent applied field: index it by
 tetrahedron

extSpaceField was filled with one entry per magnetic tetrahedron, but it is read with the index of
the tetrahedron in the whole mesh: with a non-magnetic region in the mesh, elements got the field of
other elements, or the read went past the end.
---
 src/mesh.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 6afad41..a772d40 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -376,14 +376,12 @@ double mesh::surface(std::vector<int> &triIndices) const
 
 void mesh::setExtSpaceField()
     {
-    extSpaceField.resize(magTet.size());
-    int k(0);
-    std::for_each(magTet.begin(), magTet.end(), [this,&k](const int idx)
+    extSpaceField.resize(tet.size());
+    std::for_each(magTet.begin(), magTet.end(), [this](const int idx)
         {
         const Tetra::Tet &t = tet[idx];
         Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> pg = t.getPtGauss();
         for(int i=0;i<Tetra::NPI;i++)
-            { extSpaceField[k].col(i) = settings.getFieldSpace(pg.col(i)); }
-        k++;
+            { extSpaceField[idx].col(i) = settings.getFieldSpace(pg.col(i)); }
         });
     }
-- 
2.43.0


From 1915a3d4bf2e416b1e533bec03d13045c1c56fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 05/27] fix: do not save the trial state of a rejected time
 step when interrupted

A step whose max(du) was exceeded left its magnetization in the NEXT state, which
is what a SIGINT or SIGTERM arriving before the next try writes to _at_exit.sol,
dated with the time of the last accepted step.
---
 src/mesh.h               | 7 +++++++
 src/time_integration.cpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/mesh.h b/src/mesh.h
index 3f6eaad..1288c65 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -192,6 +192,13 @@ public:
                       [](Nodes::Node &nod) { nod.evolution(); });
         }
 
+    /** give up the magnetization computed by a rejected time step: back to that of its start */
+    inline void discardStep(void)
+        {
+        std::for_each(EXEC_POL, node.begin(), node.end(),
+                      [](Nodes::Node &nod) { nod.d[Nodes::NEXT].u = nod.d[Nodes::CURRENT].u; });
+        }
+
     /** isobarycenter */
     Eigen::Vector3d c;
 
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index ffb33ca..7e8edcd 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -227,6 +227,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             if (dumax > settings.DUMAX)
                 {
                 flag++;
+                msh.discardStep();  // should we be interrupted now, it must not be saved
                 continue;
                 }
 
-- 
2.43.0


From 34a601d98786b0bb331c466a4859f82492b37d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 06/27] fix: time step statistics: count a step rejected for
 its max(du) as failed

---
 src/time_integration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 7e8edcd..7d985d1 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -216,8 +216,6 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 }
 
             double dumax = t_prm.get_dt() * vmax;
-            stats.good_dt.add(t_prm.get_dt());
-            stats.good_dumax.add(dumax);
             if (settings.verbose)
                 {
                 std::cout << "  -> dumax = " << dumax << ",  vmax = " << vmax << std::endl;
@@ -228,8 +226,11 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 {
                 flag++;
                 msh.discardStep();  // should we be interrupted now, it must not be saved
+                stats.bad_dt.add(t_prm.get_dt());
                 continue;
                 }
+            stats.good_dt.add(t_prm.get_dt());
+            stats.good_dumax.add(dumax);
 
             compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             nt++;
-- 
2.43.0


From aa78ab0532f73c86cf176c3dfe0485c430bbe3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 07/27] fix: Zeeman energy: use the applied field at the time
 of the state

The energies of a new state were computed with the field at the start of the
time step, so that E_zeeman and E_tot did not match the t, Hx, Hy and Hz of
their row.
---
 src/time_integration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 7d985d1..37a5414 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -232,7 +232,6 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
             stats.good_dt.add(t_prm.get_dt());
             stats.good_dumax.add(dumax);
 
-            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
             nt++;
             flag = 0;
 
@@ -241,6 +240,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 t_prm.set_t(t_target);
             else
                 t_prm.inc_t();
+            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
 
             if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             FG_SIM_STATE("accepted", t_prm, msh);
-- 
2.43.0


From 2edecfca796b43d1bdb54a772fce91e4ec11bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 08/27] fix: max_angle: skip the edges with a non magnetic node

std::min() with a NAN gives one or the other of its arguments depending on their
order, hence a result that depended on how the reduction was scheduled.
---
 src/mesh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.h b/src/mesh.h
index 1288c65..b7fe4a6 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -305,6 +305,9 @@ public:
                 [](const double a, const double b){ return std::min(a, b); },
                 [this](const Edge &edge)
                     {
+                    // the magnetization is undefined (NAN) on non magnetic nodes
+                    if (!magNode[edge.first] || !magNode[edge.second])
+                        { return 1.0; }
                     Eigen::Vector3d m1 = getNode_u(edge.first);
                     Eigen::Vector3d m2 = getNode_u(edge.second);
                     return m1.dot(m2);
-- 
2.43.0


From cb53a7eae5305c6497d0034fba6f06dc98a8f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 09/27] fix: extent of meshes with only negative coordinates
 along an axis

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index b7fe4a6..23ea44b 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -428,7 +428,7 @@ private:
     /** return the maximum of all nodes coordinate along coord axis */
     inline double maxNodes(const Nodes::index coord /**< [in] */) const
         {
-        return doOnNodes(__DBL_MIN__, coord, [](const double a, const double b)
+        return doOnNodes(-__DBL_MAX__, coord, [](const double a, const double b)
                         { return a > b; });
         }
 
-- 
2.43.0


From 297e1e44af061220bda8133e2f4944f72343d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 10/27] fix: initialize the domain wall velocity

---
 src/linear_algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_algebra.h b/src/linear_algebra.h
index fa15855..d45ed43 100644
--- a/src/linear_algebra.h
+++ b/src/linear_algebra.h
@@ -115,7 +115,7 @@ private:
     const int verbose;
 
     /** speed of the domain wall */
-    double DW_vz;
+    double DW_vz = 0.0;
 
     /** maximum speed of the magnetization in the whole physical object */
     double v_max;
-- 
2.43.0


From bd1c57d9ef0051226f01c090509bf83c12597af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 11/27] fix: recentering: use the configured direction

Settings::recentering_direction is an index, which was compared with 'X', 'Y' and
'Z': the recentering was always along Z.
---
 src/fem.h           |  4 ++--
 src/recentering.cpp | 12 +-----------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 3d016e9..7654cec 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -116,7 +116,7 @@ public:
 
         if (mySets.recenter)
             {
-            direction(Nodes::IDX_Z);
+            direction(mySets.recentering_direction);
             } /* DW propagation direction for recentering */
         }
 
@@ -179,7 +179,7 @@ public:
     */
 
     bool recenter(double thres /**< [in] threshold parameter */,
-                  char recentering_direction /**< [in] X|Y|Z */);
+                  Nodes::index idx_dir /**< [in] recentering direction */);
 
     /** performs the time integration of the LLG problem, with spin accumulation if any */
     int time_integration(Settings &settings /**< [in] */,
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 76dbb10..d3f4e44 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -44,18 +44,8 @@ void Fem::direction(const enum index idx_dir)
     annDeallocPt(queryPt);
     }
 
-bool Fem::recenter(double thres, const char recentering_direction)
+bool Fem::recenter(double thres, const Nodes::index idx_dir)
     {
-    enum index idx_dir;
-
-    switch (recentering_direction)
-        {
-        case 'X': idx_dir = IDX_X; break;
-        case 'Y': idx_dir = IDX_Y; break;
-        case 'Z': idx_dir = IDX_Z; break;
-        default: idx_dir = IDX_Z; break;
-        }
-
     thres = abs(thres);
     double m_i = msh.avg(Nodes::get_u_comp, idx_dir);
     if (fabs(m_i) < thres) return false;
-- 
2.43.0


From 6dddba5e01492c0c452ad0e9f53801b6834b35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 12/27] fix: accept an output directory created meanwhile by
 another process

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index e17436b..f7dc455 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -61,6 +61,11 @@ static void create_dir_if_needed(const std::string& dirname)
 
     // The directory does not exist (stat() reported ENOENT), create it.
     res = mkdir(name, 0777);
+    if (res != 0 && errno == EEXIST && stat(name, &statbuf) == 0 && S_ISDIR(statbuf.st_mode))
+        {  // somebody else just created it
+        std::cout << "(already exists)\n";
+        return;
+        }
     if (res != 0)
         {
         std::cout << "could not be created.\n";
-- 
2.43.0


From cdb960150ff599855f5db2c1ff4a348e54e88f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 13/27] fix: do not write an undefined host name

gethostname() returns -1 on failure and leaves the buffer undefined.
---
 src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 0ffd9a1..a49d882 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -275,7 +275,7 @@ std::ostringstream Settings::commonMetadata() const
     std::ostringstream ss;
     ss << tags::evol::version << ' ' << feellgood_version << "\n";
     char name[HOST_NAME_MAX];
-    if (gethostname(name, HOST_NAME_MAX) != ENAMETOOLONG)
+    if (gethostname(name, HOST_NAME_MAX) == 0)
         { ss << tags::evol::hostname << ' ' << name << "\n"; }
     ss << tags::evol::rw_time << ' ' << date() << "\n";
     ss << tags::evol::settings_file << ' ' << getFileDisplayName() << "\n";
-- 
2.43.0


From e8b7796947c0efcb67d2ebef4e7b21aebb11ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:27 +0000
Subject: [PATCH 14/27] fix: undefined behavior with an empty metadata value

---
 src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index a49d882..8eaa155 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -283,7 +283,7 @@ std::ostringstream Settings::commonMetadata() const
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
         {
         std::string value = it->second;
-        if (value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
+        if (!value.empty() && value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
         replace(value, "\n", "\n##  ");  // escape and indent continuation lines
         ss << "## " << it->first << ": " << value << '\n';
         }
-- 
2.43.0


From 96a92680908306e050252dc8bd8c8d3df7c6a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:27 +0000
Subject: [PATCH 15/27] fix: report output files that could not be written

A full disk, or any other error while writing or closing .evol, .sol and _V.sol
files, was ignored: the program went on and exited with status 0.
---
 src/electrostatSolver.cpp | 11 ++++++++---
 src/save.cpp              | 10 ++++++++++
 src/time_integration.cpp  |  5 +++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/electrostatSolver.cpp b/src/electrostatSolver.cpp
index e40a2b4..9895cdd 100644
--- a/src/electrostatSolver.cpp
+++ b/src/electrostatSolver.cpp
@@ -84,8 +84,13 @@ void electrostatSolver::compute(const bool verbose, const std::string& V_fileNam
         {
         if (!V_fileName.empty())
             {
-            bool iznogood = save(V_fileName, "## columns: index\tV\n");
-            if (verbose && iznogood)
+            bool saved = save(V_fileName, "## columns: index\tV\n");
+            if (!saved)
+                {
+                std::cerr << "error while writing file " << V_fileName << "\n";
+                SYSTEM_ERROR;
+                }
+            if (verbose)
                 { std::cout << "file " << V_fileName << " written.\n"; }
             }
         }
@@ -153,7 +158,7 @@ bool electrostatSolver::save(const std::string &V_fileName, const std::string &m
         fout << i << '\t' << V[_i] << "\n";
         }
     fout.close();
-    return !(fout.good());
+    return fout.good();
     }
 
 double electrostatSolver::getSigma(const Tetra::Tet &tet) const
diff --git a/src/save.cpp b/src/save.cpp
index fc3a06a..63038f0 100644
--- a/src/save.cpp
+++ b/src/save.cpp
@@ -140,6 +140,11 @@ void Fem::saver(Settings &settings, const timing &t_prm, std::ofstream &fout, co
             }
         }
     fout << std::flush;
+    if (fout.fail())
+        {
+        std::cerr << "error while writing the .evol file\n";
+        SYSTEM_ERROR;
+        }
 
     std::string baseName = settings.r_path_output_dir + '/' + settings.getSimName();
 
@@ -183,4 +188,9 @@ void Mesh::mesh::savesol(const int precision, const std::string& fileName,
         fout << "\n";
         }
     fout.close();
+    if (fout.fail())
+        {
+        std::cerr << "error while writing file " << fileName << "\n";
+        SYSTEM_ERROR;
+        }
     }
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 37a5414..a82165f 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -254,6 +254,11 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
 
 bailout:
     fout.close();
+    if (fout.fail())
+        {
+        std::cerr << "error while writing file " << str << "\n";
+        status = 1;
+        }
     print_stats(stats);
     return status;
     }
-- 
2.43.0


From d1d9693c12c86cf2d6a3c5c1dab5a8613174226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:27 +0000
Subject: [PATCH 16/27] fix: restart from a .sol file

- read back the nan written on non magnetic nodes, and the rows of simulations
  with spin accumulation: restarting from such files was refused
- do not abort on user metadata named or containing "time:"
- refuse a file with incomplete rows, undefined magnetization on a magnetic node,
  or more nodes than the mesh, instead of starting from something else
- initialize the start of the first time step too, which is what the spin
  accumulation solver is using
---
 src/read.cpp | 53 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 036f451..939a855 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -205,22 +205,22 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
 
     std::string str;
     bool flag_t = false;
-    unsigned long idx;
 
     while (fin.peek() == '#' || fin.peek() == '\n')
         {
         getline(fin, str);
-        idx = str.find(tags::sol::time);
-        if (idx != std::string::npos)
-            {  // found tag "## time:"
-            t = stod(str.substr(idx + tags::sol::time.length() ));
-            flag_t = true;
+        if (str.compare(0, tags::sol::time.length(), tags::sol::time) == 0)
+            {  // found tag "## time:", the last one counts (user metadata come first)
+            const char *start = str.c_str() + tags::sol::time.length();
+            char *end;
+            t = strtod(start, &end);
+            flag_t = (end != start && std::isfinite(t));
             }
         }
 
     if (!flag_t)
         {
-        std::cerr << "error: no ## time: tag in input .sol file " << fileName << "\n";
+        std::cerr << "error: no valid ## time: tag in input .sol file " << fileName << "\n";
         SYSTEM_ERROR;
         }
 
@@ -231,17 +231,44 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
 
     for (unsigned int i = 0; i < node.size(); i++)
         {
-        double mx,my,mz;
-        unsigned int i_;
-        int node_idx = node_index[i];
-        fin >> i_ >> mx >> my >> mz >> node[node_idx].d[Nodes::NEXT].phi;
-        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(mx,my,mz);
-        if (i != i_)
+        // columns: index, mx, my, mz, phi, and possibly a spin accumulation vector
+        constexpr int NB_COLUMNS = 5;
+        double val[NB_COLUMNS];
+        int nb_val = 0;
+        if (getline(fin, str))
+            {  // operator>> does not read NAN, the magnetization of a non magnetic node
+            const char *pos = str.c_str();
+            char *end;
+            for (; nb_val < NB_COLUMNS; nb_val++, pos = end)
+                {
+                val[nb_val] = strtod(pos, &end);
+                if (end == pos) break;
+                }
+            }
+        if (nb_val != NB_COLUMNS || val[0] != i)
             {
             std::cerr << "error: mesh node index mismatch between mesh and input .sol file\n";
             fin.close();
             SYSTEM_ERROR;
             }
+        const int node_idx = node_index[i];
+        Nodes::Node &n = node[node_idx];
+        n.d[Nodes::NEXT].u = Eigen::Vector3d(val[1], val[2], val[3]);
+        n.d[Nodes::NEXT].phi = val[4];
+        n.d[Nodes::CURRENT].u = n.d[Nodes::NEXT].u;
+        if (magNode[node_idx] && !n.d[Nodes::NEXT].u.allFinite())
+            {
+            std::cerr << "error: undefined magnetization on node " << i << " in input .sol file\n";
+            fin.close();
+            SYSTEM_ERROR;
+            }
+        }
+    fin >> std::ws;
+    if (!fin.eof())
+        {
+        std::cerr << "error: the input .sol file has more nodes than the mesh\n";
+        fin.close();
+        SYSTEM_ERROR;
         }
     fin.close();
 
-- 
2.43.0


From 1c28cde1d8ee21f3f4eb8bc9ddef7723bdfe541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 17/27] fix: do not abort when little is left before an output
 time

With between 2 and 3 min(dt) left, or a time step already close to min(dt), the
time stepper chose a step below min(dt), even a null or negative one, and the
simulation was aborted although no step had failed.
---
 src/time_integration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index a82165f..61a7869 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -31,7 +31,8 @@ public:
         double step = std::min(stride, soft_max);
         if (step > stride - 2 * hard_min && step < stride)
             {
-            step = stride - 2 * hard_min;
+            // Avoid leaving less than hard_min, and going ourselves below it.
+            step = std::max(stride - 2 * hard_min, std::min(step, stride / 2));
             }
         soft_max = std::max(soft_max, std::min(step * 1.1, hard_max));
         return step;
-- 
2.43.0


From 3e6fb755060dcaf1323f8411432ac1a05a14401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:05 +0000
Subject: [PATCH 18/27] fix: recentering: ignore the non magnetic nodes

The nearest node could be a non magnetic one, whose magnetization is undefined: the magnetization
of magnetic nodes became nan, and the simulation failed.
---
 src/fem.h           | 19 +++++++++++++------
 src/recentering.cpp | 12 ++++++------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 7654cec..bcaf775 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -58,7 +58,13 @@ public:
                 std::cout << "Approximate nearest neighbors:\n";
                 }
 
-            pts = annAllocPts(msh.getNbNodes(), Nodes::DIM);
+            // Only the magnetic nodes have a magnetization to be moved around.
+            for (int i = 0; i < msh.getNbNodes(); i++)
+                {
+                if (msh.magNode[i]) ptsNode.push_back(i);
+                }
+            const int nbPts = ptsNode.size();
+            pts = annAllocPts(nbPts, Nodes::DIM);
             if (!pts)
                 {
                 std::cerr << "ANN memory error while allocating points\n";
@@ -69,11 +75,11 @@ public:
                 std::cout << "  points allocated\n";
                 }
 
-            for (int i = 0; i < msh.getNbNodes(); i++)
+            for (int i = 0; i < nbPts; i++)
                 {
-                this->pts[i][0] = msh.getNode_p(i).x();
-                this->pts[i][1] = msh.getNode_p(i).y();
-                this->pts[i][2] = msh.getNode_p(i).z();
+                this->pts[i][0] = msh.getNode_p(ptsNode[i]).x();
+                this->pts[i][1] = msh.getNode_p(ptsNode[i]).y();
+                this->pts[i][2] = msh.getNode_p(ptsNode[i]).z();
                 }
 
             if (mySets.verbose)
@@ -81,7 +87,7 @@ public:
                 std::cout << "  building kd_tree\n";
                 }
 
-            kdtree = new ANNkd_tree(pts, msh.getNbNodes(), Nodes::DIM);
+            kdtree = new ANNkd_tree(pts, nbPts, Nodes::DIM);
             if (!kdtree)
                 {
                 std::cerr << "ANN memory error while allocating kd_tree\n";
@@ -194,6 +200,7 @@ private:
     ANNkd_tree *kdtree; /**< ANN kdtree to find efficiently the closest set of nodes to a physical
                            point in the mesh  */
     ANNpointArray pts;  /**< container for the building of the kdtree (handled by ANN library) */
+    std::vector<int> ptsNode;  /**< indices of the nodes in pts: the magnetic ones */
 
     /** find direction of motion of DW */
     void direction(enum Nodes::index idx_dir /**< [in] */);
diff --git a/src/recentering.cpp b/src/recentering.cpp
index d3f4e44..ce9bf06 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -22,7 +22,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    int ns = nnIdx[0];
+    int ns = ptsNode[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     /* right */
@@ -32,7 +32,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = ptsNode[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0.)
@@ -68,7 +68,7 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = ptsNode[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     // right frontier
@@ -78,7 +78,7 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = ptsNode[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0)
@@ -90,7 +90,7 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
     assert(u2L * u2R < 0);
     double D_i = m_i * 0.5 * msh.l(idx_dir) * u2L;  // shift with correct sign
 
-    for (int i = 0; i < msh.getNbNodes(); i++)
+    for (int i : ptsNode)
         {
         Eigen::Vector3d p = msh.getNode_p(i) + D_i * p_dir;
 
@@ -108,7 +108,7 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
         queryPt[2] = p.z();
         kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
 
-        int ns = nnIdx[0];
+        int ns = ptsNode[nnIdx[0]];
         msh.set_node_u0(i, msh.getNode_u(ns));
         msh.set_node_zero_v(i);
         }
-- 
2.43.0


From e55f945118f65159c696f0494d8d9285ba06ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 19/27] fix: surface anisotropy: effective field

It lacked a division by mu0, so that the surface anisotropy was in the energy but had practically no
effect on the dynamics, and its sign depended on the orientation of the triangles in the mesh file.
---
 src/triangle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triangle.cpp b/src/triangle.cpp
index 800560b..a69af06 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,8 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / dMs;
+    // dMs is signed, as the orientation of the triangle is arbitrary
+    double Kbis = 2.0*params.Ks / (mu0*std::abs(dMs));
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
-- 
2.43.0


From 4329259412574054ba072226ffea7d3fac5cc4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:58 +0000
Subject: [PATCH 20/27] fix: refuse settings when the standard input cannot be
 read

A read error in the middle of the standard input was taken for its end, and
the simulation ran with whatever settings had been received so far.
---
 src/settings.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 8eaa155..d43f05a 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <regex>
 #include <cmath>
+#include <stdio.h>   // for ferror()
 #include <unistd.h>  // for sysconf(), gethostname()
 
 #include "tags.h"
@@ -597,7 +598,11 @@ bool Settings::read(const std::string& filename)
     {
     YAML::Node config;
     if (filename == "-")
-        { config = YAML::Load(std::cin); }
+        {
+        config = YAML::Load(std::cin);
+        if (ferror(stdin))  // what was read may be incomplete
+            { error("could not read the standard input."); }
+        }
     else
         {
         try
-- 
2.43.0


From 9072f8496724bfd159ff29be20ec57f009c87c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 21/27] fix: keep the recentering direction a settings file
 does not mention

The direction given in the user's defaults file was silently replaced by Z as
soon as the settings file had a recentering section without a direction.
---
 src/settings.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index d43f05a..ea8a315 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -485,14 +485,17 @@ void Settings::read(YAML::Node yaml)
     if (recentering && !recentering.IsNull())
         {
         assign(recenter, recentering["enable"]);
-        std::string direction = recentering["direction"].as<std::string>("Z");
-        if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
-            { error("recentering.direction should be X, Y or Z."); }
-        switch (direction[0])
+        std::string direction;
+        if (assign(direction, recentering["direction"]))  // otherwise keep the current one
             {
-            case 'X': recentering_direction = IDX_X; break;
-            case 'Y': recentering_direction = IDX_Y; break;
-            case 'Z': recentering_direction = IDX_Z; break;
+            if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
+                { error("recentering.direction should be X, Y or Z."); }
+            switch (direction[0])
+                {
+                case 'X': recentering_direction = IDX_X; break;
+                case 'Y': recentering_direction = IDX_Y; break;
+                case 'Z': recentering_direction = IDX_Z; break;
+                }
             }
         assign(threshold, recentering["threshold"]);
         }  // recentering
-- 
2.43.0


From fc374ce050857fe69937bcca922e5491ddd8cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:23 +0000
Subject: [PATCH 22/27] fix: let the initial magnetization of a settings file
 override the defaults

An initial .sol file named in the user's defaults file was used even if the
settings file gave the initial magnetization as expressions or a function.
---
 src/settings.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index ea8a315..e5f9211 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -459,11 +459,15 @@ void Settings::read(YAML::Node yaml)
             {
             std::string s_mag = magnetization.as<std::string>();
             if (s_mag.find("function") == std::string::npos || s_mag.find('{') == std::string::npos)
-                { restoreFileName = s_mag; }
+                {
+                restoreFileName = s_mag;
+                sM.clear();
+                }
             else
                 {
                 sM = s_mag;
                 mag_parser.set_function(sM);
+                restoreFileName.clear();
                 }
             }
         else if (magnetization.IsSequence())
@@ -474,6 +478,8 @@ void Settings::read(YAML::Node yaml)
             sMy = magnetization[1].as<std::string>();
             sMz = magnetization[2].as<std::string>();
             mag_parser.set_expressions("x,y,z", sMx, sMy, sMz);
+            sM.clear();
+            restoreFileName.clear();
             }
         else
             { error("initial_magnetization should be a file name or a vector of expressions."); }
-- 
2.43.0


From 0f1b04bf808a9234104ded0098a478db2de5d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:32 +0000
Subject: [PATCH 23/27] fix: let the regions of a settings file override those
 of the defaults

A region (or the __default__ region) described both in the user's defaults
file and in the settings file was stored twice, and the first description, that
of the defaults, was the one used.
---
 src/settings.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index e5f9211..c4f0f23 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -389,8 +389,9 @@ void Settings::read(YAML::Node yaml)
                 bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                 std::string name = it->first.as<std::string>();
                 YAML::Node volume = it->second;
-                Tetra::prm &p = paramTetra.emplace_back();
-                if (default_idx >= 0)
+                int idx = findRegionIdx<Tetra::prm>(name);  // already known, e.g. from the user's defaults?
+                Tetra::prm &p = (idx >= 0) ? paramTetra[idx] : paramTetra.emplace_back();
+                if (idx < 0 && default_idx >= 0)
                     { p = paramTetra[default_idx]; }
                 p.regName = name;
 
@@ -429,8 +430,9 @@ void Settings::read(YAML::Node yaml)
                 {
                 std::string name = it->first.as<std::string>();
                 YAML::Node surface = it->second;
-                Triangle::prm &p = paramTriangle.emplace_back();
-                if (default_idx >= 0)
+                int idx = findRegionIdx<Triangle::prm>(name);  // already known, e.g. from the user's defaults?
+                Triangle::prm &p = (idx >= 0) ? paramTriangle[idx] : paramTriangle.emplace_back();
+                if (idx < 0 && default_idx >= 0)
                     { p = paramTriangle[default_idx]; }
                 p.regName = name;
                 assign(p.suppress_charges, surface["suppress_charges"]);
-- 
2.43.0


From 748764c01d02250356c8016e8ca7962735ff7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:20 +0000
Subject: [PATCH 24/27] fix: name the outputs after the mesh file that is used

If the user's defaults file names a mesh and the settings file names another one,
the outputs were named after the former.
---
 src/settings.cpp | 6 ++++--
 src/settings.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index c4f0f23..3575012 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -328,7 +328,8 @@ void Settings::read(YAML::Node yaml)
             if (r_path_output_dir.length() > 1 && r_path_output_dir.back() == '/')
                 { r_path_output_dir.pop_back(); }
             }
-        assign(simName, outputs["file_basename"]);
+        if (assign(simName, outputs["file_basename"]))
+            { simNameFromMesh = false; }
         assign(time_step, outputs["evol_time_step"]);
         assign(tf, outputs["final_time"]);
 
@@ -589,9 +590,10 @@ void Settings::read(YAML::Node yaml)
         }  // time_integration
 
     // outputs.file_basename defaults to base name of mesh.filename.
-    if (simName.empty() && !pbName.empty())
+    if ((simName.empty() || simNameFromMesh) && !pbName.empty())
         {
         simName = pbName;
+        simNameFromMesh = true;
 
         // Remove directory part.
         size_t pos = simName.rfind('/');
diff --git a/src/settings.h b/src/settings.h
index 49dc1c9..d43b0ef 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -324,6 +324,7 @@ private:
     std::string fileDisplayName; /**< parameters file name : either a yaml file or standard input */
     double _scale;               /**< scaling factor from gmsh files to feellgood */
     std::string simName;         /**< simulation name */
+    bool simNameFromMesh = false; /**< whether simName is the default: the base name of the mesh file */
     std::string pbName;          /**< mesh file, gmsh file format */
     ExpressionParser mag_parser;     /**< parser for the magnetization expressions R³->R³ */
 
-- 
2.43.0


From a4812735348af7d034fe91e43e4abdb02df32d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 25/27] fix: refuse a mesh that has no tetrahedron or no facet

---
 src/meshUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshUtils.h b/src/meshUtils.h
index 27aaba2..54edf1a 100644
--- a/src/meshUtils.h
+++ b/src/meshUtils.h
@@ -9,7 +9,8 @@ convenient template to check elements type while reading a gmsh mesh file
 template <int TYPE>
 bool all_elems_are(std::vector<int> &container)
     {
-    return std::all_of(container.begin(), container.end(), [](const int e_type){return e_type == TYPE;});
+    return !container.empty()
+           && std::all_of(container.begin(), container.end(), [](const int e_type){return e_type == TYPE;});
     }
 
 /**
-- 
2.43.0


From bc6e983eda4cc0b3d9e2e8300fcb6aebdef3bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 26/27] fix: refuse an empty list of output columns

---
 src/settings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 3575012..b34bc67 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -344,8 +344,8 @@ void Settings::read(YAML::Node yaml)
         YAML::Node columns = outputs["evol_columns"];
         if (columns && !columns.IsNull())
             {
-            if (!columns.IsSequence())
-                { error("outputs.evol_columns should be a sequence."); }
+            if (!columns.IsSequence() || columns.size() == 0)
+                { error("outputs.evol_columns should be a non-empty sequence."); }
             evol_columns.clear();
             for (auto it = columns.begin(); it != columns.end(); ++it)
                 { evol_columns.push_back(it->as<std::string>()); }
-- 
2.43.0


From 06906b17f852b38bd4a9c03b299e0d14816765e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 27/27] fix: compute the spin accumulation from one state of
 the magnetization

---
 src/spinAccumulationSolver.cpp | 6 +++---
 src/tetra.cpp                  | 4 ++--
 src/tetra.h                    | 5 +++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 7be3743..dd234da 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -249,13 +249,13 @@ void spinAcc::integrales(const Tetra::Tet &tet,
         {
         const double invTau_sd = D0 / sq(getLsd(tet)); //units: [D0/sq(lsd)] = s^-1 : it is 1/tau_sd
 
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X, NEXT));
         AE.block<N,N>(    N, 2 * N).diagonal() += diag;
         AE.block<N,N>(2 * N,     N).diagonal() -= diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y, NEXT));
         AE.block<N,N>(    0, 2 * N).diagonal() -= diag;
         AE.block<N,N>(2 * N,     0).diagonal() += diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z));
+        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z, NEXT));
         AE.block<N,N>(    0,     N).diagonal() += diag;
         AE.block<N,N>(    N,     0).diagonal() -= diag;
         }
diff --git a/src/tetra.cpp b/src/tetra.cpp
index 72bd24e..e6e2c9e 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -139,11 +139,11 @@ Eigen::Matrix<double,N,N> Tet::calcDiagBlock(const double c,
     return result;
     }
 
-Eigen::Matrix<double,N,1> Tet::calcOffDiagBlock(const Nodes::index idx) const
+Eigen::Matrix<double,N,1> Tet::calcOffDiagBlock(const Nodes::index idx, const Nodes::step k) const
     {
     Eigen::Matrix<double,N,1> result;
     for (int i = 0; i < N; i++)
-        result[i] = getNode(i).get_u(Nodes::CURRENT)[idx];
+        result[i] = getNode(i).get_u(k)[idx];
     return result;
     }
 
diff --git a/src/tetra.h b/src/tetra.h
index 4620b82..56a1e40 100644
--- a/src/tetra.h
+++ b/src/tetra.h
@@ -253,9 +253,10 @@ public:
 
     /**
      * computes elementary diagonal elementary block (stored in a N vector)
-     * returns m(idx) on the nodes, with m(idx) a component of the magnetization
+     * returns m(idx) on the nodes, with m(idx) a component of the magnetization at step k
      * */
-    Eigen::Matrix<double,N,1> calcOffDiagBlock(const Nodes::index idx) const;
+    Eigen::Matrix<double,N,1> calcOffDiagBlock(const Nodes::index idx,
+                                               const Nodes::step k = Nodes::CURRENT) const;
 
     /** add drift contribution due to eventual recentering to vectors BE */
     void add_drift_BE(double alpha, double s_dt, double Vdrift,
-- 
2.43.0

