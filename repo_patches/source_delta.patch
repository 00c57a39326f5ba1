From 6e06376fc1d181ba517b4b2f4f25a623729b543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 01/26] fix: VEff keeps the requested order when it expands an
 nVEV-sized configuration

VEff(v, T, diff, Order) with v of dimension nVEV dropped Order in the
recursive call and always returned the one-loop potential.
---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 271e7d0..724b227 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2973,7 +2973,7 @@ double Class_Potential_Origin::VEff(const std::vector<double> &v,
     Logger::Write(LoggingLevel::Default, ss.str());
     std::vector<double> Transformedv;
     Transformedv = MinimizeOrderVEV(v);
-    return VEff(Transformedv, Temp, diff);
+    return VEff(Transformedv, Temp, diff, Order);
   }
 
   double resOut = 0;
-- 
2.43.0


From e4c0a597e6b5cf220a0b7f4ae29f0d0036f0a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 02/26] fix: field derivative of the Higgs masses uses the mass
 matrix itself

For diff > 0 HiggsMassesSquared diagonalised the derivative of the mass
matrix instead of the mass matrix, so neither the masses nor their
derivatives were those of the requested configuration.
---
 src/models/ClassPotentialOrigin.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 724b227..998ef2c 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2466,21 +2466,10 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
   }
   else if (static_cast<std::size_t>(diff) <= NHiggs and diff > 0)
   {
-    MatrixXd Diff(NHiggs, NHiggs);
-    std::size_t x0 = diff - 1;
-    for (std::size_t i = 0; i < NHiggs; i++)
-    {
-      for (std::size_t j = 0; j < NHiggs; j++)
-      {
-        Diff(i, j) = Curvature_Higgs_L3[i][j][x0];
-        for (std::size_t k = 0; k < NHiggs; k++)
-        {
-          Diff(i, j) += Curvature_Higgs_L4[i][j][x0][k] * v[k];
-        }
-      }
-    }
+    // MassMatrix holds the derivative of the mass matrix here
+    MatrixXd Diff = MassMatrix;
     MatrixXcd MassCast(NHiggs, NHiggs);
-    MassCast = MassMatrix;
+    MassCast = HiggsMassMatrix(v, Temp, 0);
     MatrixXcd DiffCast(NHiggs, NHiggs);
     DiffCast = Diff;
     res      = FirstDerivativeOfEigenvalues(MassCast, DiffCast);
-- 
2.43.0


From e5de6fda9003cefa0cb2bd6ffd3244d9a4a5345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 03/26] fix: field derivatives of the one-loop potential

boson()/fermion() return the derivative with respect to the squared mass
for diff == 1 only, V1Loop passed the index of the field, so the thermal
part was missing for every field but the first. The derivative of the
Coleman-Weinberg term of a negative squared mass had the wrong sign, and
the thermal part was not the derivative of the interpolated functions the
potential is built from (the integral aborts for negative squared masses).
---
 src/models/ClassPotentialOrigin.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 998ef2c..c8cd6fa 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -115,7 +115,7 @@ double Class_Potential_Origin::boson(double MassSquared,
                                      int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), cb, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, cb, diff);
   if (Temp == 0) return res;
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (diff == 0)
@@ -126,7 +126,7 @@ double Class_Potential_Origin::boson(double MassSquared,
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JbosonInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
@@ -143,7 +143,7 @@ double
 Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), C_CWcbFermion, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, C_CWcbFermion, diff);
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (Temp == 0) return res;
   if (diff == 0)
@@ -154,7 +154,7 @@ Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
   else if (diff == 1)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JfermionInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
@@ -3057,27 +3057,27 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NHiggs; k++)
       {
         res += HiggsMassesVec.at(k + NHiggs) *
-               boson(HiggsMassesVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(HiggsMassesVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += GaugeMassesVec.at(k + NGauge) *
-               boson(GaugeMassesVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += 2 * GaugeMassesZeroTempVec.at(k + NGauge) *
-               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbHiggs, diff);
+               boson(GaugeMassesZeroTempVec.at(k), Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NQuarks; k++)
       {
         res += -6 * QuarkMassesVec.at(k + NQuarks) *
-               fermion(QuarkMassesVec[k], Temp, diff);
+               fermion(QuarkMassesVec[k], Temp, 1);
       }
       for (std::size_t k = 0; k < NLepton; k++)
       {
         res += -2 * LeptonMassesVec.at(k + NLepton) *
-               fermion(LeptonMassesVec[k], Temp, diff);
+               fermion(LeptonMassesVec[k], Temp, 1);
       }
     }
     else
@@ -3086,25 +3086,25 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
       for (std::size_t k = 0; k < NHiggs; k++)
       {
         res += HiggsMassesZeroTempVec.at(k + NHiggs) *
-               boson(HiggsMassesZeroTempVec[k], Temp, C_CWcbHiggs, diff);
+               boson(HiggsMassesZeroTempVec[k], Temp, C_CWcbHiggs, 1);
       }
       for (std::size_t k = 0; k < NGauge; k++)
       {
         res += 3 * GaugeMassesZeroTempVec.at(k + NGauge) *
-               boson(GaugeMassesZeroTempVec[k], Temp, C_CWcbGB, diff);
+               boson(GaugeMassesZeroTempVec[k], Temp, C_CWcbGB, 1);
       }
       double AddContQuark = 0;
       for (std::size_t k = 0; k < NQuarks; k++)
       {
         AddContQuark += -2 * QuarkMassesVec.at(k + NQuarks) *
-                        fermion(QuarkMassesVec[k], Temp, diff);
+                        fermion(QuarkMassesVec[k], Temp, 1);
       }
       for (std::size_t k = 0; k < NColour; k++)
         res += AddContQuark;
       for (std::size_t k = 0; k < NLepton; k++)
       {
         res += -2 * LeptonMassesVec.at(k + NLepton) *
-               fermion(LeptonMassesVec[k], Temp, diff);
+               fermion(LeptonMassesVec[k], Temp, 1);
       }
 
       double VDebye = 0;
-- 
2.43.0


From 15bcbe12a57ff496efa4d21e15f3e2c241474a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 04/26] fix: derivative of the high-temperature expansion of
 the thermal functions

The exponent (1 - l) / 2 was an integer division.
---
 src/ThermalFunctions/ThermalFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index 2f67693..c957bfc 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -297,7 +297,7 @@ double JInterpolatedHigh(const double &x, const int &n, int diff)
     {
       double Kl =
           JInterpolatedHighCoefficientCalculator.GetCoefficentAtOrder(l);
-      sum += Kl * pow(x, (1 - l) / 2) * (2 * l + 2 * sqrt(x) - 3);
+      sum += Kl * pow(x, (1 - l) / 2.0) * (2 * l + 2 * sqrt(x) - 3);
     }
     res = exp(-sqrt(x)) * sqrt(2 * M_PI) / (8 * pow(x, 3.0 / 4.0)) * sum;
   }
-- 
2.43.0


From 215071a7f8b3bf5ef9f4e6b0fa98a7c135e3cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 05/26] fix: loop function with one vanishing and three
 different masses

fbaseFour returned 0 for one vanishing and three pairwise different
squared masses, the formulas for this case could not be reached.
---
 src/models/ClassPotentialOrigin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index c8cd6fa..e93deb7 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -563,7 +563,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
   }
 
   // 2) two of the three non-zero masses are equal
-  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0)
+  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0 and
+           (mbs == mcs or mbs == mds or mcs == mds))
   {
     if (mbs == mcs and mds != mbs)
     {
@@ -587,7 +588,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mbs - mcs) * (mbs - mcs));
     }
   }
-  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0)
+  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0 and
+           (mas == mcs or mas == mds or mcs == mds))
   {
     if (mas == mcs and mds != mas)
     {
@@ -611,7 +613,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mcs - mas) * (mcs - mas));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0)
+  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0 and
+           (mas == mbs or mas == mds or mbs == mds))
   {
     if (mas == mbs and mds != mas)
     {
@@ -635,7 +638,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mbs * (mas - mbs) * (mas - mbs));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0)
+  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0 and
+           (mas == mbs or mas == mcs or mbs == mcs))
   {
     if (mas == mbs and mcs != mas)
     {
-- 
2.43.0


From 948b0235f357307690e742d30c4803af43d6a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 06/26] fix: do not read VevOrder past its end in
 MinimizeOrderVEV and SetEWVEVZero

---
 src/models/ClassPotentialOrigin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index e93deb7..bf906ff 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3508,7 +3508,7 @@ double Class_Potential_Origin::EWSBVEV(const std::vector<double> &v) const
 
 void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
 {
-  int count = 0;
+  std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; i++)
   {
     double checkgauge = 0;
@@ -3516,7 +3516,8 @@ void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
     {
       checkgauge += std::abs(Curvature_Gauge_G2H2[j][j][i][i]);
     }
-    if (checkgauge > 1e-10 and i == VevOrder[count]) // true for doublet vevs
+    if (checkgauge > 1e-10 and count < nVEV and
+        i == VevOrder[count]) // true for doublet vevs
     {
       sol.at(count) = 0;
       count += 1;
@@ -3964,7 +3965,7 @@ std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(
   std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; ++i)
   {
-    if (i == VevOrder[count])
+    if (count < nVEV and i == VevOrder[count])
     {
       vevFunction.push_back(vevMinimizer.at(count));
       count++;
-- 
2.43.0


From 1f16375d8880ab26e89decf69a78f770f69e3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 07/26] fix: capture MaxSol by value, it leaves scope before
 the GSL thread is joined

---
 src/minimizer/Minimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 09989da..c1aec41 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -140,7 +140,7 @@ Minimize_gen_all(const std::shared_ptr<Class_Potential_Origin> &modelPointer,
       if (UseMultithreading)
       {
         thread_GSL = std::thread(
-            [&solGSLMin, &gslMinSuc, &modelPointer, &Temp, &MaxSol]()
+            [&solGSLMin, &gslMinSuc, &modelPointer, &Temp, MaxSol]()
             {
               std::tie(solGSLMin, gslMinSuc) =
                   GSL_Minimize_gen_all(*modelPointer, Temp, 5, MaxSol);
-- 
2.43.0


From c41c42cad787ab63bd57f9c450ea500c12f34ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 08/26] fix: check for remaining starting points while holding
 the lock

---
 src/minimizer/MinimizeGSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/minimizer/MinimizeGSL.cpp b/src/minimizer/MinimizeGSL.cpp
index 333de73..5cc05f5 100644
--- a/src/minimizer/MinimizeGSL.cpp
+++ b/src/minimizer/MinimizeGSL.cpp
@@ -202,7 +202,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
                        std::queue<std::vector<double>> &mResults,
                        bool UseLock = true)
   {
-    while (mFoundSolutions < mMaxSol and not mStartingPoints.empty())
+    while (mFoundSolutions < mMaxSol)
     {
       std::vector<double> start;
       {
@@ -211,6 +211,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
         {
           lock = std::unique_lock<std::mutex>(mWriteResultLock);
         }
+        if (mStartingPoints.empty()) break;
         start = mStartingPoints.front();
         mStartingPoints.pop();
       }
-- 
2.43.0


From efd8abecd8571d7a85cd6bd92a9ec031462ff832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 09/26] fix: symmetric NLopt search box for negative vacuum
 expectation values

---
 src/minimizer/LibNLOPT/MinimizeNLOPT.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
index 8e8f767..1ffbc31 100644
--- a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
+++ b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
@@ -42,7 +42,7 @@ NLOPTReturnType MinimizeUsingNLOPT(const Class_Potential_Origin &model,
   {
     if (std::abs(model.get_vevTreeMin(i)) > UpperBound.at(i))
     {
-      UpperBound.at(i) = 1.5 * model.get_vevTreeMin(i);
+      UpperBound.at(i) = 1.5 * std::abs(model.get_vevTreeMin(i));
     }
     if (-std::abs(model.get_vevTreeMin(i)) < LowerBound.at(i))
     {
@@ -99,7 +99,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
     {
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) > UpperBound.at(i))
       {
-        UpperBound.at(i) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) < LowerBound.at(i))
       {
@@ -112,7 +113,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) >
           UpperBound.at(i - 1))
       {
-        UpperBound.at(i - 1) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i - 1) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) <
           LowerBound.at(i - 1))
-- 
2.43.0


From fa2952f395d1ba871d940ad66c716a57b13fda98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:29 +0000
Subject: [PATCH 10/26] fix: report the minimum at the initial temperature if
 no higher one is broken

---
 src/minimizer/Minimizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index c1aec41..c39656e 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -343,6 +343,10 @@ PTFinder_gen_all(const std::shared_ptr<Class_Potential_Origin> &modelPointer,
     return result;
   }
 
+  pSol[0] = vStart;
+  for (std::size_t k = 0; k < dim; k++)
+    pSol[k + 1] = solStart.at(k);
+
   for (std::size_t k = 0; k < dim; k++)
     startMitte.push_back(modelPointer->get_vevTreeMin(k));
   do
-- 
2.43.0


From a2f2c5aab9eb1cb955f1584680436d1cc71c0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:49 +0000
Subject: [PATCH 11/26] fix: compute the peak frequencies on the first
 evaluation of the GW spectrum

---
 src/gravitational_waves/gw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 506ae1e..0321d8b 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -115,7 +115,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeSoundWave();
     }
-    else if (!this->data.fPeakSoundWave)
+    if (!this->data.fPeakSoundWave)
     {
       this->CalcPeakFrequencySoundWave();
     }
@@ -131,7 +131,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeTurbulence();
     }
-    else if (!this->data.fPeakTurbulence)
+    if (!this->data.fPeakTurbulence)
     {
       this->CalcPeakFrequencyTurbulence();
     }
-- 
2.43.0


From d0f37467e597190db011fdc5fb78bced6de4fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:49 +0000
Subject: [PATCH 12/26] fix: exponent 11/3 of the turbulence spectrum was an
 integer division

---
 src/gravitational_waves/gw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 0321d8b..6b99f82 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -138,7 +138,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
 
     res += this->data.h2OmegaPeakTurbulence *
            std::pow(f / this->data.fPeakTurbulence, 3) /
-           std::pow(1 + f / this->data.fPeakTurbulence, 11 / 3) /
+           std::pow(1 + f / this->data.fPeakTurbulence, 11. / 3) /
            (1 + 8 * M_PI * f / this->data.Hstar);
   }
 
-- 
2.43.0


From fbf3fcdb19b0914ac36a98c174197c8cba43e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:49 +0000
Subject: [PATCH 13/26] fix: choose the discrete symmetry that brings the true
 closest to the false vacuum

---
 src/bounce_solution/bounce_solution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index f40d186..108cd7e 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -89,9 +89,9 @@ void BounceSolution::CalculateOptimalDiscreteSymmetry()
   for (auto GroupElement : GroupElements)
   {
     Eigen::VectorXd CandidateTrueVacuum = GroupElement * TrueVacuum;
-    std::vector<double> DeltaVEV        = FalseVacuum;
+    std::vector<double> DeltaVEV;
     for (std::size_t el = 0; el < FalseVacuum.size(); el++)
-      DeltaVEV.push_back(FalseVacuum[el] - TrueVacuum[el]);
+      DeltaVEV.push_back(FalseVacuum[el] - CandidateTrueVacuum[el]);
 
     if (L2NormVector(DeltaVEV) < MaximumDistance)
     {
-- 
2.43.0


From a761bf6bfe97c460981c44a3fbb9a36207358ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:28 +0000
Subject: [PATCH 14/26] fix: status of the percolation and completion
 temperature follows the temperature found

---
 src/bounce_solution/bounce_solution.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 108cd7e..e7fb4b3 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -811,12 +811,16 @@ void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
         if (Tperc > SolutionList[i].T and Tperc < SolutionList[i + 1].T)
           CalculateActionAt((SolutionList[i].T + SolutionList[i + 1].T) / 2.);
       }
-      percolation_temp_set = true;
       SetBounceSol();
-      Tperc       = CalcTempAtFalseVacFraction(false_vac_frac);
+      Tperc                = CalcTempAtFalseVacFraction(false_vac_frac);
+      percolation_temp_set = Tperc > 0;
+    }
+
+    if (Tperc > 0)
+    {
       status_perc = BSMPT::StatusTemperature::Success;
     }
-    else if (Tperc < 0)
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the percolation temperature failed.");
@@ -840,11 +844,15 @@ void BounceSolution::CalculateCompletionTemp(const double &false_vac_frac)
         if (Tcompl > SolutionList[i].T and Tcompl < SolutionList[i + 1].T)
           CalculateActionAt((SolutionList[i].T + SolutionList[i + 1].T) / 2.);
       }
-      completion_temp_set = true;
       Tcompl              = CalcTempAtFalseVacFraction(false_vac_frac);
-      status_compl        = BSMPT::StatusTemperature::Success;
+      completion_temp_set = Tcompl > 0;
     }
-    else if (Tcompl < 0)
+
+    if (Tcompl > 0)
+    {
+      status_compl = BSMPT::StatusTemperature::Success;
+    }
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the completion temperature failed.");
-- 
2.43.0


From 28589818f7986098dee8e2ad7faf14ee1a83a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:28 +0000
Subject: [PATCH 15/26] fix: use the requested wall velocity for the
 percolation and completion temperature

---
 src/bounce_solution/bounce_solution.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index e7fb4b3..0a892ec 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -36,6 +36,7 @@ BounceSolution::BounceSolution(
   Tm         = phase_pair.T_low;
 
   UserDefined_vwall               = UserDefined_vwall_in;
+  if (UserDefined_vwall >= 0) vwall = UserDefined_vwall;
   epsturb                         = UserDefined_epsturb_in;
   MaxPathIntegrations             = MaxPathIntegrations_in;
   NumberOfInitialScanTemperatures = NumberOfInitialScanTemperatures_in;
-- 
2.43.0


From 0f0ebd61d2925ce3cfbf124af225fab355a12195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 16/26] fix: use the requested false vacuum fractions for
 percolation and completion

---
 include/BSMPT/bounce_solution/bounce_solution.h | 6 ++++++
 src/bounce_solution/bounce_solution.cpp         | 3 ++-
 src/transition_tracer/transition_tracer.cpp     | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index 96c1813..f7acb53 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -76,6 +76,12 @@ public:
    */
   bool percolation_temp_set = false;
 
+  /**
+   * @brief false vacuum fraction that defines the percolation temperature
+   *
+   */
+  double perc_false_vac_frac = 0.71;
+
   /**
    * @brief set to true if completion temperature is set
    */
diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 0a892ec..a6363a3 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -799,6 +799,7 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
 
 void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
 {
+  perc_false_vac_frac = false_vac_frac;
   if (status_bounce_sol == StatusGW::Success)
   {
     Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
@@ -963,7 +964,7 @@ void BounceSolution::CalculatePTStrength()
     // v_wall = v_wall(alpha, T_*)
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
-    CalculatePercolationTemp();
+    CalculatePercolationTemp(perc_false_vac_frac);
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 5041100..733591e 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -204,7 +204,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculatePercolationTemp();
+              bounce.CalculatePercolationTemp(input.perc_prbl);
 
               output_store.status.status_perc.push_back(bounce.status_perc);
               if (bounce.status_perc == BSMPT::StatusTemperature::Success)
@@ -227,7 +227,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculateCompletionTemp();
+              bounce.CalculateCompletionTemp(input.compl_prbl);
 
               output_store.status.status_compl.push_back(bounce.status_compl);
               if (bounce.status_compl == BSMPT::StatusTemperature::Success)
-- 
2.43.0


From f68245166a59839e474f5750eeb83378c7fff7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 17/26] fix: terminate the calculation of the transition
 strength if it does not converge

---
 src/bounce_solution/bounce_solution.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index a6363a3..a1cecac 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -965,6 +965,7 @@ void BounceSolution::CalculatePTStrength()
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
     CalculatePercolationTemp(perc_false_vac_frac);
+    if (status_perc != BSMPT::StatusTemperature::Success) break;
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
@@ -989,6 +990,7 @@ void BounceSolution::CalculatePTStrength()
     CalculateWallVelocity(false_min, true_min);
     if (abs(alpha / old_alpha - 1) < 1e-7) return; // Found a solution
   }
+  if (UserDefined_vwall >= 0) return; // No other wall velocity to try
   // We could not find the solution for the system. use default value of .95
   // instead
   Logger::Write(LoggingLevel::TransitionDetailed,
-- 
2.43.0


From 9ca7e356e38b84b157bbb01c1ef30f09c83ee91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 18/26] fix: report the wall velocity used for the
 gravitational waves

---
 src/transition_tracer/transition_tracer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 733591e..1859b60 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -277,9 +277,8 @@ TransitionTracer::TransitionTracer(user_input &input)
                 Logger::Write(LoggingLevel::TransitionDetailed,
                               "Start GW parameters calculation.");
 
-                new_gw_data.vwall = bounce.GetWallVelocity();
-
                 bounce.CalculatePTStrength();
+                new_gw_data.vwall       = bounce.GetWallVelocity();
                 new_gw_data.alpha       = bounce.GetPTStrength();
                 new_gw_data.beta_over_H = bounce.GetInvTimeScale();
 
-- 
2.43.0


From 805024d9491cf730a92a7b3374ce933b5c46b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 19/26] fix: do not abort if a point has a nucleation but no
 percolation temperature

---
 src/transition_tracer/transition_tracer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 1859b60..3eae80b 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -271,7 +271,9 @@ TransitionTracer::TransitionTracer(user_input &input)
                 trans_status = bounce.status_compl;
               }
 
+              // the strength and time scale are taken at percolation
               if (trans_status == BSMPT::StatusTemperature::Success &&
+                  bounce.status_perc == BSMPT::StatusTemperature::Success &&
                   input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
@@ -318,8 +320,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                   new_gw_data.status_gw = gw.data.status;
                 }
               }
-              else if (input.gw_calculation &&
-                       trans_status != BSMPT::StatusTemperature::Success)
+              else if (input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
                               "Requested transition temperature could not be "
-- 
2.43.0


From b60453a35dec6f928415f9ec149a51240a719782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:21 +0000
Subject: [PATCH 20/26] fix: a temperature that meets the false vacuum fraction
 too well is not a failure

---
 src/bounce_solution/bounce_solution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index a1cecac..81a2d3a 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -792,6 +792,12 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
         break;
       }
     }
+    // The fraction is already met more precisely than required
+    if (almost_the_same(int_at_false_vac_frac,
+                        IatT,
+                        RelativeErrorInCalcTempAtFalseVacFraction *
+                            MarginOfCalcTempAtFalseVacFractionBeforeFailure))
+      res_Temp = T_middle;
   }
   // Not numerically stable
   return res_Temp;
-- 
2.43.0


From 6f7ce51d186ecc2bfc81c5b767dd6b1525a27fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:52 +0000
Subject: [PATCH 21/26] fix: apply the group elements to the original vev when
 reducing it to one sector

---
 src/minimum_tracer/minimum_tracer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index e806ad2..338d35a 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -702,6 +702,7 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
   // Saveguard if GroupElements is not populated
   if (GroupElements.size() == 0) return;
   int MaximumMeasure = -1;
+  const std::vector<double> original = vev;
   char *ptr;
   std::string BinaryNumber;
   for (auto GroupElement : GroupElements)
@@ -710,7 +711,7 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
     BinaryNumber.clear();
     // Feed buffer
     for (size_t i = 0; i < vev.size(); i++)
-      BinaryNumber.append(std::to_string(vev[i] * GroupElement(i, i) >=
+      BinaryNumber.append(std::to_string(original[i] * GroupElement(i, i) >=
                                          1e-5)); // Heaviside function
 
     // Converto to decimal and compare
@@ -718,7 +719,7 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
     {
       MaximumMeasure = std::strtol(BinaryNumber.c_str(), &ptr, 2);
       for (size_t i = 0; i < vev.size(); i++)
-        vev[i] *= GroupElement(i, i); // Transform vev
+        vev[i] = original[i] * GroupElement(i, i); // Transform vev
     }
 
     // Reached maximum measure
-- 
2.43.0


From 55412117fdaa2bfbb2761dcec94e5eebc3f03e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:52 +0000
Subject: [PATCH 22/26] fix: compare vectors up to signs only if sign flips are
 allowed

---
 src/minimum_tracer/minimum_tracer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 338d35a..56db87c 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1453,13 +1453,13 @@ bool almost_the_same(const std::vector<double> &a,
   {
     if (allow_for_sign_flip)
     {
-      count_true +=
-          int(almost_the_same(a.at(i), b.at(i), rel_precision, num_zero));
+      count_true += int(almost_the_same(
+          std::abs(a.at(i)), std::abs(b.at(i)), rel_precision, num_zero));
     }
     else
     {
-      count_true += int(almost_the_same(
-          std::abs(a.at(i)), std::abs(b.at(i)), rel_precision, num_zero));
+      count_true +=
+          int(almost_the_same(a.at(i), b.at(i), rel_precision, num_zero));
     }
   }
   if (std::size_t(count_true) == a.size())
-- 
2.43.0


From a20738fa7e7a6d95712d272e85d5cf227c105a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:52 +0000
Subject: [PATCH 23/26] fix: sign of the stationary point at high temperature

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 56db87c..88cb150 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1245,7 +1245,7 @@ int MinimumTracer::IsThereEWSymmetryRestoration()
     return 1;
 
   Eigen::VectorXd StationaryPoint =
-      HessianEigen.colPivHouseholderQr().solve(GradientEigen);
+      HessianEigen.colPivHouseholderQr().solve(-1 * GradientEigen);
 
   // Locate global stationary point
   point = std::vector<double>(StationaryPoint.data(),
-- 
2.43.0


From 5dafd28130c0555729cc8576cee1d5353b172f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:19 +0000
Subject: [PATCH 24/26] fix: sort and number the phases after gaps have been
 patched

---
 src/minimum_tracer/minimum_tracer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 88cb150..3558d5c 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2391,6 +2391,9 @@ Vacuum::Vacuum(const double &T_lowIn,
        status_vacuum == StatusTracing::NoCoverage)) // no_coverage can get fixed
                                                     // in setCoexRegion
   {
+    // identify coexisiting phase regions
+    setCoexRegion(UseMultiStepPTMode); // can flip status_vacuum to error code
+
     // sort phases in decending T_high
     std::sort(PhasesList.begin(),
               PhasesList.end(),
@@ -2402,9 +2405,6 @@ Vacuum::Vacuum(const double &T_lowIn,
       PhasesList[i].id = i;
     }
 
-    // identify coexisiting phase regions
-    setCoexRegion(UseMultiStepPTMode); // can flip status_vacuum to error code
-
     if (PhasesList.size() > 0)
     {
       PrintPhasesDiagram();
-- 
2.43.0


From a2f15d041bba7d7e809d6de9abf8cb973e2b0b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:19 +0000
Subject: [PATCH 25/26] fix: check the global minimum also if the new phase
 ends within the old one

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 3558d5c..ab00816 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1877,7 +1877,7 @@ bool Vacuum::DoGlobMinOverlap(const Phase &new_phase, const Phase &old_phase)
         phase_high = new_phase;
         phase_low  = old_phase;
       }
-      else if (new_phase.T_low <= old_phase.T_low)
+      else
       {
         phase_high = old_phase;
         phase_low  = new_phase;
-- 
2.43.0


From 9457133f25354e11d79163efeb1f6afa34da8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:19 +0000
Subject: [PATCH 26/26] fix: critical temperature of phases which coexist at
 one temperature only

---
 src/minimum_tracer/minimum_tracer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index ab00816..32990a1 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1308,8 +1308,9 @@ void CoexPhases::CalculateTc()
                        100,
                        35);
   std::vector<double> plotT, plotDeltaV, plot0;
-  for (double T = T_low; T <= T_high; T += (T_high - T_low) / 100)
+  for (int i = 0; i <= 100; i++)
   {
+    const double T = T_low + i * (T_high - T_low) / 100;
     plotT.push_back(T);
     plotDeltaV.push_back(deltaV(T));
     plot0.push_back(0);
-- 
2.43.0

