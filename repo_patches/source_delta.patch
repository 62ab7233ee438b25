From 3d99477f624ddd6acf5c56fe0406d189d918f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 01/64] fix: HDF5Output::AddGroup creates groups that do not
 exist yet

---
 Source/IO/Output/HDF5Output.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..086967d 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -3,12 +3,12 @@
 #include "HDF5Output.hh"
 
 HDF5Output::HDF5Output():
-m_file(NULL), m_group(NULL)
+m_file(NULL), m_group(NULL), m_subGroup(NULL)
 {
 }
 
 HDF5Output::HDF5Output(std::string fileName, bool append):
-m_fileName(fileName), m_group(NULL)
+m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
     if (append == true)
     {
@@ -21,6 +21,7 @@ m_fileName(fileName), m_group(NULL)
 
 HDF5Output::~HDF5Output()
 {
+    delete m_subGroup;
     delete m_group;
     delete m_file;
 }
@@ -30,12 +31,13 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    herr_t status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    if (status < 0)
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From bc9a4f53866df9fc3813d653eb6c98b9dd27f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 02/64] fix: SourceGenerator hands out each primary exactly
 once under OpenMP

---
 Source/Particles/SourceGenerator.cpp | 29 ++++++++++++++--------------
 Source/Particles/SourceGenerator.hh  |  3 ++-
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..d7e228a 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -40,38 +40,40 @@ SourceGenerator::~SourceGenerator()
 
 ParticleList* SourceGenerator::GenerateList()
 {
-    if (m_partCount == m_nPart)
+    // Events are generated concurrently, so each call claims its own index
+    unsigned int index = m_partCount++;
+    if (index >= m_nPart)
     {
         std::cerr << "Error: Particle source depleted." << std::endl;
         std::exit(1);
     }
-    ParticleList* list = new ParticleList(std::to_string(m_partCount));
+    ParticleList* list = new ParticleList(std::to_string(index));
 
-    ThreeVector partPosition = ThreeVector(m_xPos[m_partCount],
-                                           m_yPos[m_partCount],
-                                           m_zPos[m_partCount]);
+    ThreeVector partPosition = ThreeVector(m_xPos[index],
+                                           m_yPos[index],
+                                           m_zPos[index]);
     partPosition = m_rotaion * partPosition + m_position;
 
-    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[m_partCount])
-                                          * std::cos(m_phiDir[m_partCount]),
-                                            std::sin(m_thetaDir[m_partCount])
-                                          * std::sin(m_phiDir[m_partCount]),
-                                            std::cos(m_thetaDir[m_partCount]));
+    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[index])
+                                          * std::cos(m_phiDir[index]),
+                                            std::sin(m_thetaDir[index])
+                                          * std::sin(m_phiDir[index]),
+                                            std::cos(m_thetaDir[index]));
     partDirection = m_rotaion * partDirection;
 
     if (m_type == "Photon" || m_type == "photon")
     {
-        Photon* part = new Photon(m_energy[m_partCount], partPosition,
+        Photon* part = new Photon(m_energy[index], partPosition,
             partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Electron" || m_type == "electron")
     {
-        Lepton* part = new Lepton(1.0, -1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, -1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Positron" || m_type == "positron")
     {
-        Lepton* part = new Lepton(1.0, 1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, 1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else
@@ -80,7 +82,6 @@ ParticleList* SourceGenerator::GenerateList()
         std::cerr << "Exiting!\n";
         exit(-1);
     }
-    m_partCount++;
     return list;
 }
 
diff --git a/Source/Particles/SourceGenerator.hh b/Source/Particles/SourceGenerator.hh
index c10bd3b..8eadf97 100644
--- a/Source/Particles/SourceGenerator.hh
+++ b/Source/Particles/SourceGenerator.hh
@@ -1,6 +1,7 @@
 #ifndef SOURCEGENERATOR_HH
 #define SOURCEGENERATOR_HH
 
+#include <atomic>
 #include <vector>
 #include "ThreeVector.hh"
 #include "ParticleList.hh"
@@ -36,7 +37,7 @@ private:
     std::vector<double> m_thetaDir;
     std::vector<double> m_phiDir;
     std::vector<double> m_energy;
-    unsigned int m_partCount;
+    std::atomic<unsigned int> m_partCount;
     ThreeMatrix m_rotaion;
     bool m_track;
 };
-- 
2.43.0


From 97d60be78d731b661abba3a031170103b4bce133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 03/64] fix: give each thread its own random engine

---
 Source/Tools/MCTools.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/MCTools.hh b/Source/Tools/MCTools.hh
index 5453eeb..c11aba0 100644
--- a/Source/Tools/MCTools.hh
+++ b/Source/Tools/MCTools.hh
@@ -33,7 +33,8 @@ namespace MCTools
         const Eigen::VectorXd& covar, const Eigen::VectorXd& skew);
 #endif
 
-    static std::random_device rd;
-    static std::mt19937 generator(rd());
+    // One engine per thread, they are not safe to share
+    static thread_local std::random_device rd;
+    static thread_local std::mt19937 generator(rd());
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From 96c6608fcf66063fe36d6576fb02268b2ece2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 04/64] fix: MCTools::SetSeed seeds the engine that is used for
 sampling

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e195e70..f648017 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -4,7 +4,7 @@
 
 void MCTools::SetSeed(int seed)
 {
-    std::srand(seed);
+    generator.seed(seed);
 }
 
 double MCTools::RandDouble(double low, double high)
-- 
2.43.0


From 30fe1d9335dda608f8b2f7b415ef262b5a6710f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 05/64] fix: RandDiscrete returns the first index with its own
 probability

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index f648017..019b8ad 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -37,7 +37,7 @@ unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
     }
     double rand = RandDouble(0.0, *(cdf.end() - 1));
     unsigned int sample(0);
-    for (unsigned int i = 1; i < distro.size(); i++)
+    for (unsigned int i = 0; i < distro.size(); i++)
     {
         if (rand < cdf[i])
         {
-- 
2.43.0


From f7a10538bcb6f867a1ef55b9828397014e6fa272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 06/64] fix: serialise histogram and track updates in the
 OpenMP event loop

---
 Source/Exec/QEDCASC.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..10a67cf 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -219,6 +219,9 @@ int main(int argc, char* argv[])
                             if (histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
+#ifdef USEOPENMP
+                                #pragma omp critical(histogram)
+#endif
                                 histograms[histCount]->AppParticle(event->GetParticle(k));
                             }
                         }
@@ -244,6 +247,9 @@ int main(int argc, char* argv[])
                     if (histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
+#ifdef USEOPENMP
+                        #pragma omp critical(histogram)
+#endif
                         histograms[k]->AppParticle(event->GetParticle(l));
                     }
                 }
@@ -251,7 +257,13 @@ int main(int argc, char* argv[])
 
             // Store source data and tracking
             if (inParticles[i].Output == true) out->StoreSource(event, j, false);
-            if (inGeneral.tracking == true) out->StoreTrack(event, j);
+            if (inGeneral.tracking == true)
+            {
+#ifdef USEOPENMP
+                #pragma omp critical(tracking)
+#endif
+                out->StoreTrack(event, j);
+            }
 
             // Free up the sapce
             generators[i]->FreeSources(event);
-- 
2.43.0


From 0ec8bc63f76eef188e40e251d4643e8b5e36e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 07/64] fix: Interpolate1D is continuous at the end of the
 table

---
 Source/Tools/Numerics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 444fac7..14a647a 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -37,11 +37,11 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		// value is not within the range so we need to use extrapolation
 		int end = sampleSize - 1;
 		queryData = sampleData[end] + (sampleData[end] - sampleData[end-1]) 
-									  * ((queryPoint - samplePoints[end-1])
+									  * ((queryPoint - samplePoints[end])
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-		int lIndex(0), hIndex(1);
+		int lIndex(sampleSize - 2), hIndex(sampleSize - 1);
 		for (unsigned int i = 0; i < sampleSize; i++)
 		{
 			if (queryPoint < samplePoints[i])
-- 
2.43.0


From 45c494b6dc2ebfb2a55db10edc8cb7f142848980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 08/64] fix: stochastic emission keeps the requested fraction
 of photons

---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..6c02822 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && m_sampleFrac > MCTools::RandDouble(0, 1))
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From 55651ad069b926875759b85c674ee5e216d762f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 09/64] fix: continuous emission never emits with a zero sample
 fraction

---
 Source/Physics/Processes/ContinuousEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/ContinuousEmission.cpp b/Source/Physics/Processes/ContinuousEmission.cpp
index 3c5f54d..5dcb3e2 100644
--- a/Source/Physics/Processes/ContinuousEmission.cpp
+++ b/Source/Physics/Processes/ContinuousEmission.cpp
@@ -24,7 +24,7 @@ void ContinuousEmission::Interact(Particle *part, ParticleList *partList) const
     if (part->GetMass() == 0 || part->IsAlive() == false) return;
 
     // prevent from occuring every time step
-    if (MCTools::RandDouble(0, 1) > m_sampleFrac) return;
+    if (MCTools::RandDouble(0, 1) >= m_sampleFrac) return;
 
     double eta = CalculateEta(part);
 
-- 
2.43.0


From 3b588f1ffdc0b4559e383f0e98ae8c7df815a6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 10/64] fix: mono energy distribution gives every particle the
 mean energy

---
 Source/Particles/SourceGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index d7e228a..a4c9467 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -28,7 +28,8 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     } else
     {
-        m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
+        // Monoenergetic source
+        m_energy = std::vector<double>(nPart, energy1);
     }
     
     m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
-- 
2.43.0


From 98d97f24614f577407794f95ffa44d001a31898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 11/64] fix: particle sources point along the requested
 direction

---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index a4c9467..f7189e3 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -32,7 +32,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = std::vector<double>(nPart, energy1);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From 7d1d2d12ae07a8f873d4bed87327034b44e53a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 12/64] fix: ThreeVector::Direction returns a unit vector

---
 Source/Tools/ThreeVector.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 0647c27..fd5a6d1 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -88,8 +88,7 @@ public:
 		dir[0] = point[0] - m_data[0];
 		dir[1] = point[1] - m_data[1];
 		dir[2] = point[2] - m_data[2];
-		dir.Norm();
-		return dir;
+		return dir.Norm();
 	}
 
 	// Returns the matrix required to rotate the vecotor onto the second
-- 
2.43.0


From cf4922432841851a0b1861b98eb3bcec6a6871b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 13/64] fix: ThreeVector::Norm of the null vector is not NaN

---
 Source/Tools/ThreeVector.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index fd5a6d1..e99e6c0 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -59,6 +59,8 @@ public:
 
 	ThreeVector Norm() const
 	{
+		// The null vector has no direction
+		if (Mag2() == 0) return *this;
 		return *this / Mag();
 	}
 
-- 
2.43.0


From dcd8e1169162155c713ae92caed4140e7a5abbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 14/64] fix: RotateToAxis handles every pair of anti-parallel
 vectors

---
 Source/Tools/ThreeVector.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index e99e6c0..30b2e33 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -100,9 +100,18 @@ public:
 		// Fist we need to check if the vectors are ainti parallel as this method fails
 		if ((this->Norm() + axis.Norm()).Mag2() <= 1e-10)
 		{
-			rotation[0][0] = -1.0;
-			rotation[1][1] =  1.0;
-			rotation[2][2] = -1.0;
+			// Half turn about an axis perpendicular to this vector
+			ThreeVector norm1 = this->Norm();
+			ThreeVector perp = std::abs(norm1[1]) < 0.9 ? ThreeVector(0, 1, 0)
+														: ThreeVector(1, 0, 0);
+			perp = (perp - perp.Dot(norm1) * norm1).Norm();
+			for (unsigned int i = 0; i < 3; i++)
+			{
+				for (unsigned int j = 0; j < 3; j++)
+				{
+					rotation[i][j] = 2.0 * perp[i] * perp[j] - (i == j ? 1.0 : 0.0);
+				}
+			}
 		} else
 		{
 			ThreeVector norm1 = this->Norm();
-- 
2.43.0


From cd7e803b488516db4d6a1707fb19b5c448d2a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 15/64] fix: leptons are created with the requested energy

---
 Source/Particles/Lepton.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Particles/Lepton.cpp b/Source/Particles/Lepton.cpp
index f283046..c5dd182 100644
--- a/Source/Particles/Lepton.cpp
+++ b/Source/Particles/Lepton.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "Lepton.hh"
 
 Lepton::Lepton(double mass, double charge, const ThreeVector &position, 
@@ -16,8 +17,8 @@ Particle(mass, charge, position, momentum, weight, time, tracking)
 Lepton::Lepton(double mass, double charge, double energy,
     const ThreeVector &position, const ThreeVector &direction, double weight,
     double time, bool tracking):
-Particle(mass, charge, position, energy * direction.Norm(), weight, time,
-    tracking)
+Particle(mass, charge, position, std::sqrt(std::max(energy * energy
+    - mass * mass, 0.0)) * direction.Norm(), weight, time, tracking)
 {
     if (charge == -1)
     {
-- 
2.43.0


From 65120a211602ddccea889a22303b1bf48f167ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 16/64] fix: plane and gaussian magnetic field perpendicular to
 the electric field

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 Source/Physics/Fields/EMField/PlaneEMField.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 76c638b..c95dff8 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -47,7 +47,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 	eField[2] = 0;
 	eField = m_rotationInv * eField;
 
-	bField[0] = E0 * std::sin(m_polAngle);
+	bField[0] = -1.0 * E0 * std::sin(m_polAngle);
 	bField[1] = E0 * std::cos(m_polAngle);
 	bField[2] = 0;
 	bField = m_rotationInv * bField;
diff --git a/Source/Physics/Fields/EMField/PlaneEMField.cpp b/Source/Physics/Fields/EMField/PlaneEMField.cpp
index fd088b9..6a68d58 100644
--- a/Source/Physics/Fields/EMField/PlaneEMField.cpp
+++ b/Source/Physics/Fields/EMField/PlaneEMField.cpp
@@ -29,7 +29,7 @@ void PlaneEMField::GetField(double time, const ThreeVector &position,
     eField[2] = 0;
     eField = m_rotationInv * eField;
 
-    bField[0] = E0 * std::sin(m_polAngle);
+    bField[0] = -1.0 * E0 * std::sin(m_polAngle);
     bField[1] = E0 * std::cos(m_polAngle);
     bField[2] = 0;
     bField = m_rotationInv * bField;
-- 
2.43.0


From de6bb0fb3c8fc8262d51277dc997c6a112f799c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 17/64] fix: gaussian and focusing pulses are focused at the
 focus point

---
 Source/Physics/Fields/EMField/FocusingField.cpp   | 2 +-
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index c10d862..33e5cec 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -26,7 +26,7 @@ FocusingField::~FocusingField()
 void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
-    ThreeVector position_p = m_rotaion * position;
+    ThreeVector position_p = m_rotaion * (position - m_focusPos);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index c95dff8..37f5943 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -27,7 +27,7 @@ GaussianEMField::~GaussianEMField()
 void GaussianEMField::GetField(double time, const ThreeVector &position,
 						  ThreeVector &eField, ThreeVector &bField) const
 {
-	ThreeVector position_p = m_rotaion * position;
+	ThreeVector position_p = m_rotaion * (position - m_focusPos);
 	double t0 		 = (m_startPos - m_focusPos).Mag();
 	double r2 		 = position_p[0] * position_p[0] + position_p[1] * position_p[1];
 	double rayleigh  = m_waveNum * m_waist * m_waist / 2.0;
-- 
2.43.0


From 8f56a0aa5889d38ce6e19e9b8741f66aa77bf889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 18/64] fix: carrier wave of gaussian and focusing pulses
 propagates with the pulse

---
 Source/Physics/Fields/EMField/FocusingField.cpp   | 3 ++-
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 33e5cec..9cb775e 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -35,7 +35,8 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     double curvature = position_p[2] + m_rayleigh * m_rayleigh
         / (position_p[2] + 1e-99);
     double phi_G = std::atan(ze);
-    double phi = m_waveNum * (position_p[2] - r2 / (2.0 * curvature));
+    double phi = m_waveNum * (time - m_t0 - position_p[2]
+        - r2 / (2.0 * curvature));
     double w = m_waist * std::sqrt(1 + ze * ze);
     double E_0 = m_maxE * std::exp(- r2 / (w * w) - (time - m_t0 - position_p[2])
             * (time - m_t0 - position_p[2]) / (m_tau * m_tau));
diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 37f5943..460b5dc 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -38,7 +38,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 										   / (rayleigh * rayleigh));
 	double E0 = m_maxE * (m_waist / beamWaist) 
 				* std::exp(-1.0 * r2 / (beamWaist * beamWaist))
-				* std::cos(position_p[2] * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
+				* std::cos((position_p[2] - time + t0) * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
 				* std::exp(-1.0 * (time - t0 - position_p[2]) 
 							* (time - t0 - position_p[2]) / (m_tau * m_tau));
 	
-- 
2.43.0


From 6274cb6aa86304f4c4a6ac9b90e341911b09bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 19/64] fix: focusing field rotates with the polarisation angle

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 9cb775e..23fd6f4 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -27,8 +27,11 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
     ThreeVector position_p = m_rotaion * (position - m_focusPos);
-    double xe = position_p[0] / m_waist;
-    double ye = position_p[1] / m_waist;
+    // Transverse coordinates along and across the polarisation axis
+    double xe = (position_p[0] * std::cos(m_polAngle)
+        + position_p[1] * std::sin(m_polAngle)) / m_waist;
+    double ye = (position_p[1] * std::cos(m_polAngle)
+        - position_p[0] * std::sin(m_polAngle)) / m_waist;
     double ze = position_p[2] / m_rayleigh;
     double r2  = position_p[0] * position_p[0] + position_p[1] * position_p[1];
     double rho2 = r2 / (m_waist *  m_waist);
@@ -77,14 +80,16 @@ void FocusingField::GetField(double time, const ThreeVector &position,
         * S[5] / 4.0 + rho2 * rho2 *rho2 * rho2 * S[6] / 32.0));
     bField[2] = E_0 * ye * (m_eps * C[1] + m_eps * m_eps * m_eps * (C[2] / 2.0
         + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));
-    eField[0] = eField[0] * std::cos(m_polAngle)
+    double ePol = eField[0];
+    eField[0] = ePol * std::cos(m_polAngle)
         - eField[1] * std::sin(m_polAngle) ;
-    eField[1] = eField[0] * std::sin(m_polAngle)
+    eField[1] = ePol * std::sin(m_polAngle)
         + eField[1] * std::cos(m_polAngle);
     eField = m_rotationInv * eField;
-    bField[0] = bField[0] * std::cos(m_polAngle)
+    double bPol = bField[0];
+    bField[0] = bPol * std::cos(m_polAngle)
         - bField[1] * std::sin(m_polAngle) ;
-    bField[1] = bField[0] * std::sin(m_polAngle)
+    bField[1] = bPol * std::sin(m_polAngle)
         + bField[1] * std::cos(m_polAngle);
     bField = m_rotationInv * bField;
 }
\ No newline at end of file
-- 
2.43.0


From a6d95c20b7f0baf7a83277694572ebc33c3cd244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 20/64] fix: tracked times belong to the tracked positions

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 8acd850..54c1f3f 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -16,8 +16,8 @@ void ParticlePusher::PushParticle(Particle *part)
     {
         ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
                                  * part->GetMomentum();
-        part->UpdateTrack(positionNew, part->GetMomentum());
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
     {
         ThreeVector posK1, posK2, posK3, posK4;
@@ -58,8 +58,8 @@ void ParticlePusher::PushParticle(Particle *part)
                                   * (posK1 + 2.0 * posK2 + 2.0 * posK3 + posK4);
         ThreeVector momentumNew = part->GetMomentum() + (m_dt / 6.0) 
                                   * (momK1 + 2.0 * momK2 + 2.0 * momK3 + momK4);
-        part->UpdateTrack(positionNew, momentumNew);
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, momentumNew);
     }
 }
 
-- 
2.43.0


From 260f7afd3ae3f94e1d7f0acc6e9195d995bcc287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 21/64] fix: secondaries stay on the simulation clock

---
 Source/Exec/QEDCASC.cpp      | 6 ++++--
 Source/Python/RunManager.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 10a67cf..2a134ae 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -228,8 +228,10 @@ int main(int argc, char* argv[])
                         histCount++;
                     }
                 }
-                // Push particles and interact
-                for (unsigned int k = 0; k < event->GetNPart(); k++) // Loop particles
+                // Push particles and interact, particles created during this
+                // step are first pushed in the next one
+                unsigned int nPart = event->GetNPart();
+                for (unsigned int k = 0; k < nPart; k++) // Loop particles
                 {
                     pusher->PushParticle(event->GetParticle(k));
                     for (unsigned int proc = 0; proc < processList.size(); proc++) // loop processes
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..d26800b 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -227,8 +227,10 @@ void RunManager::beamOn(int events, int threads)
         double time(0);
         while(time < m_timeEnd) //loop time
         {
-            // Push particles and interact
-            for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles
+            // Push particles and interact, particles created during this
+            // step are first pushed in the next one
+            unsigned int nPart = event->GetNPart();
+            for (unsigned int j = 0; j < nPart; j++) // Loop particles
             {
                 m_pusher->PushParticle(event->GetParticle(j));
                 for (unsigned int proc = 0; proc < m_processList.size(); proc++) // loop processes
-- 
2.43.0


From 158e87766ca28a760e43579fec56581527c73a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 22/64] fix: photons that converted into pairs are not part of
 the final state

---
 Source/Exec/QEDCASC.cpp            | 6 ++++--
 Source/IO/Output/OutputManager.cpp | 2 ++
 Source/Python/RunManager.cpp       | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 2a134ae..63b7033 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -216,7 +216,8 @@ int main(int argc, char* argv[])
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
-                            if (histograms[histCount]->GetParticle() == 
+                            if (event->GetParticle(k)->IsAlive() &&
+                                histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
 #ifdef USEOPENMP
@@ -246,7 +247,8 @@ int main(int argc, char* argv[])
             {
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
-                    if (histograms[k]->GetParticle() == 
+                    if (event->GetParticle(l)->IsAlive() &&
+                        histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
 #ifdef USEOPENMP
diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..efa9a27 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -239,6 +239,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID]   = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron") m_electronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Positron") m_positronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Photon") m_photonCount[eventID]++;
@@ -251,6 +252,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID] = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron")
             {
                 electronData[m_electronCount[eventID]*8]   = eventID;
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index d26800b..779c720 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -244,6 +244,7 @@ void RunManager::beamOn(int events, int threads)
         // Store final particle properties
         for (long unsigned int j = 0; j < event->GetNPart(); ++j)
         {
+            if (event->GetParticle(j)->IsAlive() == false) continue;
             if (event->GetParticle(j)->GetCharge() == -1)
             {
                 m_electron_P_X[tid].push_back(event->GetParticle(j)->GetMomentum()[0] 
-- 
2.43.0


From 3ac7a291f17e508ecf53e4fa4eb888ebe04383b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 23/64] fix: histograms that share a time are filled at that
 time

---
 Source/Exec/QEDCASC.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 63b7033..f6f8706 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -209,7 +209,7 @@ int main(int argc, char* argv[])
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                if (histCount < histograms.size())
+                while (histCount < histograms.size())
                 {
                  //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
                     if(time >= histograms[histCount]->GetTime())
@@ -227,6 +227,9 @@ int main(int argc, char* argv[])
                             }
                         }
                         histCount++;
+                    } else
+                    {
+                        break;
                     }
                 }
                 // Push particles and interact, particles created during this
-- 
2.43.0


From 71ae3ded4bc2ef7722ba2ebd574f88284318a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 24/64] fix: short command line arguments are rejected instead
 of aborting

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f6f8706..76651d9 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,7 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() > 4 && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From c173576399b58d8d290a9c1acffc67604892a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 25/64] fix: histograms bin the requested particle property

---
 Source/IO/Output/Histogram.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..d202068 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -26,6 +26,7 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_type = type;
 	m_time = time;
 	m_nBins = nBins;
+	m_entries = 0;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
 	double detla = (maxBin - minBin) / (m_nBins - 1.0);
@@ -44,7 +45,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +54,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +63,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +72,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +81,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +90,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +99,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -123,7 +124,7 @@ void Histogram::Fill(ParticleList* partList)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -136,7 +137,7 @@ void Histogram::Fill(ParticleList* partList)
 				}
 			}
 			
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -148,7 +149,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -160,7 +161,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
-- 
2.43.0


From 746bdfd106871234a14c5f2d5d04079ec3a1e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 26/64] fix: normalising a histogram without entries in range
 is not NaN

---
 Source/IO/Output/Histogram.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index d202068..4cc527d 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -211,6 +211,7 @@ void Histogram::Normalise()
 		{
 			sum += m_binValues[i];
 		}
+		if (sum == 0) return;
 		for (unsigned int i = 0; i < m_nBins; i++)
 		{
 			m_binValues[i] /= sum;
-- 
2.43.0


From 2389388b25487f10c4430bac16fd573f0c484b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 27/64] fix: tracked gamma factor has no units

---
 Source/IO/Output/OutputManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index efa9a27..cdd5edb 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -483,7 +483,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             }
             for (unsigned int j = 0; j < m_gammaTrack[i].size(); j++)
             {
-                gammaBuff[j] = m_gammaTrack[i][j] * time;
+                gammaBuff[j] = m_gammaTrack[i][j];
             }
             m_outputFile->AddArray2D(posBuff, m_positionTrack[i].size(), 3, eventName + "/Position");
             m_outputFile->AddArray2D(momBuff, m_momentumTrack[i].size(), 3, eventName + "/Momentum");
-- 
2.43.0


From 91cc62f88fa1abb8abc9e799f60d66d77b817236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 28/64] fix: tracks can be written after particle lists

---
 Source/IO/Output/OutputManager.cpp | 4 ++--
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index cdd5edb..329a4e4 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -433,10 +433,10 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
     // Output tracking info
     if (outTrack == true)
     {
-        if (m_partListBool == false)
+        if (m_partTrackBool == false)
         {
             m_outputFile->AddGroup("Particles/ParticleTrack");
-            m_partListBool = true;
+            m_partTrackBool = true;
         }
 
         // Get the units system
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index d4b8e75..ff1c718 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -69,6 +69,7 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
+    bool m_partTrackBool = false;
     bool m_particleSourceBool = false;
 
     // Structures holding data for source outputs
-- 
2.43.0


From 0dbf59f420329247e31781942432bb11e79e2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 29/64] fix: several particle sources can be written to one
 file

---
 Source/IO/Output/OutputManager.cpp | 54 +++++++++++++++++++-----------
 Source/IO/Output/OutputManager.hh  | 11 +++++-
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 329a4e4..0b336a0 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -49,6 +49,11 @@ OutputManager::~OutputManager()
 #ifdef USEMPI
     }
 #endif
+    FreeSource();
+}
+
+void OutputManager::FreeSource()
+{
     for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
     {
         delete [] m_primaryEvent[i];
@@ -58,6 +63,16 @@ OutputManager::~OutputManager()
     }
 }
 
+std::string OutputManager::AddSourceGroup()
+{
+    // The first source keeps the plain name, the following ones are numbered
+    m_sourceCount++;
+    std::string groupName = "Particles/ParticleSource";
+    if (m_sourceCount > 1) groupName += std::to_string(m_sourceCount);
+    m_outputFile->AddGroup(groupName);
+    return groupName;
+}
+
 void OutputManager::SingleParticle(Particle* part, std::string name)
 {
     if (m_singlePartBool == false)
@@ -209,6 +224,7 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
 
 void OutputManager::InitSource(unsigned int nEvents)
 {
+    FreeSource();
     m_primaryEvent  = std::vector<double*>(nEvents);
     m_electronEvent = std::vector<double*>(nEvents);
     m_positronEvent = std::vector<double*>(nEvents);
@@ -332,11 +348,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
 {
     if (outSource == true)
     {
-        if (m_particleSourceBool == false)
-        {
-            m_outputFile->AddGroup("Particles/ParticleSource");
-            m_particleSourceBool = true;
-        }
+        std::string sourceGroup = AddSourceGroup();
         double* primeBuff = new double [m_primaryEvent.size()*8];
         for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
         {
@@ -350,7 +362,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             primeBuff[i*8+7] = m_primaryEvent[i][7];
         }
         m_outputFile->AddArray2D(primeBuff, m_primaryEvent.size(), 8,
-                "Particles/ParticleSource/Primary");
+                sourceGroup + "/Primary");
 
         unsigned int totalElectrons = 0;
         unsigned int totalPositrons = 0;
@@ -412,17 +424,17 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
         if (totalElectrons > 0)
         {
             m_outputFile->AddArray2D(electronBuff, totalElectrons, 8,
-                    "Particles/ParticleSource/Electrons");
+                    sourceGroup + "/Electrons");
         }
         if (totalPositrons > 0)
         {
             m_outputFile->AddArray2D(positronBuff, totalPositrons, 8,
-                    "Particles/ParticleSource/Positrons");
+                    sourceGroup + "/Positrons");
         }
         if (totalPhotons > 0)
         {
             m_outputFile->AddArray2D(photonBuff, totalPhotons, 8,
-                    "Particles/ParticleSource/Photons");
+                    sourceGroup + "/Photons");
         }
         delete [] primeBuff;
         delete [] electronBuff;
@@ -456,7 +468,8 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
         // Loop through all the tracks
         for (unsigned int i = 0; i < m_idTrack.size(); i++)
         {
-            std::string eventName = "Particles/ParticleTrack/Event" + std::to_string(i);
+            std::string eventName = "Particles/ParticleTrack/Event"
+                + std::to_string(m_trackCount + i);
             m_outputFile->AddGroup(eventName);
 
             double* posBuff = new double [3*m_positionTrack[i].size()];
@@ -496,6 +509,13 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             delete[] gammaBuff;
         }
 
+        // These tracks are written, the next source continues the numbering
+        m_trackCount += m_idTrack.size();
+        m_idTrack.clear();
+        m_positionTrack.clear();
+        m_momentumTrack.clear();
+        m_timeTrack.clear();
+        m_gammaTrack.clear();
     }
 }
 
@@ -564,11 +584,7 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
         if (id == 0)
         {
             // We are master
-            if (m_particleSourceBool == false)
-            {
-                m_outputFile->AddGroup("Particles/ParticleSource");
-                m_particleSourceBool = true;
-            }
+            std::string sourceGroup = AddSourceGroup();
 
             // First start with primary sources
             int arraysize[nProc];
@@ -620,7 +636,7 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
                 delete[] procBuff;
             }
             m_outputFile->AddArray2D(primeBuff, totalSize / 8, 8,
-                "Particles/ParticleSource/Primary");
+                sourceGroup + "/Primary");
             delete[] primeBuff;
 
             // Now we move on the end events
@@ -763,17 +779,17 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
             if (totalelectronSize > 0)
             {
                 m_outputFile->AddArray2D(electronBuff, totalelectronSize / 8, 8,
-                        "Particles/ParticleSource/Electrons");
+                        sourceGroup + "/Electrons");
             }
             if (totalpositronSize > 0)
             {
                 m_outputFile->AddArray2D(positronBuff, totalpositronSize / 8, 8,
-                        "Particles/ParticleSource/Positrons");
+                        sourceGroup + "/Positrons");
             }
             if (totalphotonSize > 0)
             {
                 m_outputFile->AddArray2D(photonBuff, totalphotonSize / 8, 8,
-                        "Particles/ParticleSource/Photons");
+                        sourceGroup + "/Photons");
             }
             delete [] electronBuff;
             delete [] positronBuff;
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index ff1c718..22192cf 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -62,6 +62,12 @@ public:
 #endif
 
 
+private:
+    // Creates the group for the next particle source
+    std::string AddSourceGroup();
+
+    void FreeSource();
+
 private:
     HDF5Output* m_outputFile;
     UnitsSystem* m_units;
@@ -70,7 +76,10 @@ private:
     bool m_singlePartBool = false;
     bool m_partListBool = false;
     bool m_partTrackBool = false;
-    bool m_particleSourceBool = false;
+
+    // Number of sources and tracks already written to the file
+    unsigned int m_sourceCount = 0;
+    unsigned int m_trackCount = 0;
 
     // Structures holding data for source outputs
     std::vector<double*> m_primaryEvent;
-- 
2.43.0


From 1d42735f6b864b7eae18d39406d7d53a30a6f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 30/64] fix: accept a file that is named ".ini" again

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 76651d9..1235e8e 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,7 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.size() > 4 && argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() >= 4 && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From 3c7cc20e8f0f50acdeceaeb82a980589e84a5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 31/64] fix: vector settings accept commas and all number
 formats

---
 Source/IO/Input/INIReader.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..35a98f6 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -90,7 +90,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E' || std::isdigit(c))
             {
                 return false;
             } else
@@ -102,9 +102,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
 
     string valstr = Get(section, name, "");
     NotNumber nn;
-    std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
-    std::string allNumbers(valstr.begin(), end);
-    std::stringstream stream(allNumbers);
+    std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
+    std::stringstream stream(valstr);
 
     ThreeVector vector;
     int i = 0;
-- 
2.43.0


From fe5e1b2deb3762cfb733592d39a9d94b3d436d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 32/64] fix: vector settings that are not given take their
 default

---
 Source/IO/Input/INIReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 35a98f6..74c27b2 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -105,6 +105,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
     std::stringstream stream(valstr);
 
+    if (valstr.empty()) return default_value;
+
     ThreeVector vector;
     int i = 0;
     for (double value = 0; stream >> value;)
-- 
2.43.0


From 3a9e40e266d4ffb1f3ad764cc0b7eeabf8923368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 33/64] fix: refuse vector settings with fewer than three
 values

---
 Source/IO/Input/INIReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 74c27b2..65648ef 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -119,6 +119,11 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         vector[i] = value;
         i++;
     }
+    if (i != 3)
+    {
+        std::cerr << "ERROR: Too few values for ThreeVector.\n";
+        exit(1);
+    }
     return vector;
 }
 
-- 
2.43.0


From 0ed9f8921473983c7d955a54136cdc07e3222d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 34/64] fix: refuse input files with malformed lines

---
 Source/IO/Input/FileParser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index c4ce767..ec1ffb5 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -7,6 +7,13 @@ FileParser::FileParser(std::string fileName, bool checkOutput):
 m_checkOutput(checkOutput)
 {
     m_reader = new INIReader(fileName);
+    if (m_reader->ParseError() != 0)
+    {
+        std::cerr << "Input error: Cannot parse line " << m_reader->ParseError()
+                  << " of \"" << fileName << "\"\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
     m_sections = m_reader->GetSections();
     CheckVitals();
 
-- 
2.43.0


From e4b8bd3ea0b5294ddb68836eda1166e94e67eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 35/64] fix: refuse a time step that never reaches the end of
 the simulation

---
 Source/IO/Input/FileParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index ec1ffb5..3b4d4ec 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -73,6 +73,12 @@ void FileParser::ReadGeneral()
     m_units = new UnitsSystem(m_general.units);
     m_general.timeStep = m_reader->GetReal("General", "time_step", 0) / m_units->RefTime();
     m_general.timeEnd = m_reader->GetReal("General", "time_end", 0) / m_units->RefTime();
+    if (!(m_general.timeStep > 0))
+    {
+        std::cerr << "Input error: \"time_step\" must be a positive number\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
     m_general.fileName = m_reader->GetString("General", "file_name", "out.h5");
     m_general.tracking = m_reader->GetBoolean("General", "tracking", false);
 
-- 
2.43.0


From ba576b20939663a03254da979b41818422d4e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 36/64] fix: refuse a negative number of particles

---
 Source/IO/Input/FileParser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 3b4d4ec..39d5bb1 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -221,7 +221,15 @@ void FileParser::ReadParticles()
              != m_sections.end())
         {
             ParticleParameters source;
-            source.Number   = m_reader->GetInteger(partField, "number_particles", 1);
+            long number     = m_reader->GetInteger(partField, "number_particles", 1);
+            if (number < 0)
+            {
+                std::cerr << "Input error: \"number_particles\" of " << partField
+                          << " is negative\n";
+                std::cerr << "Exiting!\n";
+                exit(1);
+            }
+            source.Number   = number;
             source.Name     = m_reader->GetString(partField, "name", partField);
             source.Type     = m_reader->GetString(partField, "particle_type", "Electron");
             source.Distro   = m_reader->GetString(partField, "energy_distribution", "mono");
-- 
2.43.0


From c93b59675fdfbbb288e8546d61266e40a36b10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 37/64] fix: QEDCascPy accepts "classical" radiation reaction

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 779c720..c14da04 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -65,7 +65,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From 7290446319d99596e8ff120bb6dd82f0eaa090f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 38/64] fix: beamOn that is refused after a successful run does
 not free twice

---
 Source/Python/RunManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index c14da04..98073aa 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -132,6 +132,9 @@ void RunManager::beamOn(int events, int threads)
     delete m_pusher;
     delete m_generator;
     delete m_field;
+    m_pusher = nullptr;
+    m_generator = nullptr;
+    m_field = nullptr;
     m_processList.clear();
 
     // Check for time / field properties
-- 
2.43.0


From 7b4f6141ae8e3a6e1929727fed8c1e6cbb5f154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 39/64] fix: beamOn refuses a time step that never reaches the
 end time

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 98073aa..c3ca89c 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -138,7 +138,7 @@ void RunManager::beamOn(int events, int threads)
     m_processList.clear();
 
     // Check for time / field properties
-    if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
+    if (!(m_timeStep > 0) || !m_fieldSet || !m_physSet || !m_genSet)
     {
         std::cerr << "Error in beamOn(): RunManager.setTime(...), "
                       "RunManager.setGenerator(...) and RunManager.setField(...) "
-- 
2.43.0


From 5dbbb6515511deacfe6717ffb19a248fe02eb13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 40/64] fix: beamOn refuses a negative number of events and
 less than one thread

---
 Source/Python/RunManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index c3ca89c..b27f5b1 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -117,6 +117,13 @@ void RunManager::usePairProduction(bool useBW)
 
 void RunManager::beamOn(int events, int threads)
 {
+    if (events < 0 || threads < 1)
+    {
+        std::cerr << "Error in beamOn(): The number of events must not be "
+                     "negative and at least one thread is needed."
+                  << std::endl;
+        return;
+    }
 
     // If threads set then check for openMP install
 #ifndef USEOPENMP
-- 
2.43.0


From e3ab23146f4e6b8df9c5e51c715dca57e508ca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 41/64] fix: no pair production without field or below
 threshold

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..0d8e96c 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -21,7 +21,10 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
 {
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
 
+    // Pairs are only produced in a field and above the threshold energy
     double chi = CalculateChi(part);
+    if (chi <= 0.0 || part->GetEnergy() < 2.0) return;
+
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
-- 
2.43.0


From ec58a973bf9525e8ee414c0b9a549f31f01bf1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 42/64] fix: pair production conserves energy for every energy
 split

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 0d8e96c..6612932 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 
 #include "NonLinearBreitWheeler.hh"
@@ -35,8 +36,10 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetOpticalDepth() < 0.0)
     {
         double split = CalculateSplit(chi);
-        double pEnergy = split * part->GetEnergy();
-        double eEnergy = (1.0 - split) * part->GetEnergy();
+        // Neither particle can have less than its rest energy
+        double pEnergy = std::min(std::max(split * part->GetEnergy(), 1.0),
+            part->GetEnergy() - 1.0);
+        double eEnergy = part->GetEnergy() - pEnergy;
         ThreeVector pMomentum =  std::sqrt(pEnergy * pEnergy - 1.0) * part->GetDirection();
         ThreeVector eMomentum =  std::sqrt(eEnergy * eEnergy - 1.0) * part->GetDirection();
         Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
-- 
2.43.0


From dbd18cd5b49fd2fd9881de6e815bf1f777dc7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 43/64] fix: emitted photons keep the direction of motion when
 the recoil turns the emitter around

---
 Source/Physics/Processes/StochasticEmission.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index 6c02822..3cf48e7 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -38,13 +38,15 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
     {
         double chi = CalculateChi(eta);
         double gammaE = 2.0 * chi * part->GetGamma() / eta;
-        ThreeVector gammaP = gammaE * part->GetDirection();
+        // The recoil can turn a slow particle around
+        ThreeVector direction = part->GetDirection();
+        ThreeVector gammaP = gammaE * direction;
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
         if (gammaE > m_eMin && m_sampleFrac > MCTools::RandDouble(0, 1))
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
-                part->GetDirection(), part->GetWeight() / m_sampleFrac,
+                direction, part->GetWeight() / m_sampleFrac,
                 part->GetTime(), m_track);
             partList->AddParticle(photon);
         }
-- 
2.43.0


From 85a97e6cd7f8ff7706971044f8b15320daf03a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 44/64] fix: histograms are filled at their time in whatever
 order they are listed

---
 Source/Exec/QEDCASC.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 1235e8e..5a10584 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -204,33 +204,28 @@ int main(int argc, char* argv[])
             // Store full event info
             if (inParticles[i].Output == true) out->StoreSource(event, j, true);
 
-            unsigned int histCount(0);
+            // Histograms can be listed in any order of time
+            std::vector<bool> histFilled(histograms.size(), false);
             double time(0);
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                while (histCount < histograms.size())
+                for (unsigned int h = 0; h < histograms.size(); h++)
                 {
-                 //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
-                    if(time >= histograms[histCount]->GetTime())
+                    if (histFilled[h] || time < histograms[h]->GetTime()) continue;
+                    for (unsigned int k = 0; k < event->GetNPart(); k++)
                     {
-                        for (unsigned int k = 0; k < event->GetNPart(); k++)
+                        if (event->GetParticle(k)->IsAlive() &&
+                            histograms[h]->GetParticle() == 
+                            event->GetParticle(k)->GetName())
                         {
-                            if (event->GetParticle(k)->IsAlive() &&
-                                histograms[histCount]->GetParticle() == 
-                                event->GetParticle(k)->GetName())
-                            {
 #ifdef USEOPENMP
-                                #pragma omp critical(histogram)
+                            #pragma omp critical(histogram)
 #endif
-                                histograms[histCount]->AppParticle(event->GetParticle(k));
-                            }
+                            histograms[h]->AppParticle(event->GetParticle(k));
                         }
-                        histCount++;
-                    } else
-                    {
-                        break;
                     }
+                    histFilled[h] = true;
                 }
                 // Push particles and interact, particles created during this
                 // step are first pushed in the next one
@@ -246,8 +241,9 @@ int main(int argc, char* argv[])
                 time += inGeneral.timeStep;
             }
             // fill any non filled histograms
-            for (unsigned int k = histCount; k < histograms.size(); k++)
+            for (unsigned int k = 0; k < histograms.size(); k++)
             {
+                if (histFilled[k]) continue;
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
                     if (event->GetParticle(l)->IsAlive() &&
-- 
2.43.0


From a4813a49b8f224d170a76ecc7b927b85a21d1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 45/64] fix: end with an error when QED_TABLES_PATH is not set

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 1 +
 Source/Physics/Processes/PhotonEmission.cpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 6612932..5307336 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -84,6 +84,7 @@ void NonLinearBreitWheeler::LoadTables()
         std::cout << "Error: Enviromental variable \"QED_TABLES_PATH\" "; 
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory." << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..f3c9dfe 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -56,6 +56,7 @@ void PhotonEmission::LoadTables()
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory."
                   << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
-- 
2.43.0


From 8d1524240dd9424bf6d036bbeec4da9f32395d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 46/64] fix: comments after continuation lines are not part of
 the value

---
 Source/IO/Input/ini.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/IO/Input/ini.cpp b/Source/IO/Input/ini.cpp
index 82d02a2..8d25b9a 100644
--- a/Source/IO/Input/ini.cpp
+++ b/Source/IO/Input/ini.cpp
@@ -155,6 +155,12 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
         else if (*prev_name && *start && start > line) {
             /* Non-blank line with leading whitespace, treat as continuation
                of previous name's value (as per Python configparser). */
+#if INI_ALLOW_INLINE_COMMENTS
+            end = find_chars_or_comment(start, NULL);
+            if (*end)
+                *end = '\0';
+            rstrip(start);
+#endif
             if (!HANDLER(user, section, prev_name, start) && !error)
                 error = lineno;
         }
-- 
2.43.0


From ed8255a13d1bab7116ae82a1e12b04e32395cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 47/64] fix: section names are found in upper and lower case

---
 Source/IO/Input/FileParser.cpp | 21 +++++++++++++++------
 Source/IO/Input/FileParser.hh  |  3 +++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 39d5bb1..db35d72 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -42,9 +42,20 @@ FileParser::~FileParser()
     delete m_units;
 }
 
+bool FileParser::HasSection(std::string name) const
+{
+    std::transform(name.begin(), name.end(), name.begin(), ::tolower);
+    for (std::string section : m_sections)
+    {
+        std::transform(section.begin(), section.end(), section.begin(), ::tolower);
+        if (section == name) return true;
+    }
+    return false;
+}
+
 void FileParser::CheckVitals()
 {
-    if (std::find(m_sections.begin(), m_sections.end(), "General") == m_sections.end())
+    if (!HasSection("General"))
     {
         std::cerr << "Input error: File does not contain \"General\" field\n";
         std::cerr << "Exiting!\n";
@@ -96,7 +107,7 @@ void FileParser::ReadGeneral()
 
 void FileParser::ReadField()
 {
-    if (std::find(m_sections.begin(), m_sections.end(), "Field") != m_sections.end())
+    if (HasSection("Field"))
     {
         m_field.Type = m_reader->GetString("Field", "field_type", "");
         if (m_field.Type != "gaussian" && m_field.Type != "plane"
@@ -217,8 +228,7 @@ void FileParser::ReadParticles()
     while(true)
     {
         std::string partField = "Particle" + std::to_string(i);
-        if (std::find(m_sections.begin(), m_sections.end(), partField) 
-             != m_sections.end())
+        if (HasSection(partField))
         {
             ParticleParameters source;
             long number     = m_reader->GetInteger(partField, "number_particles", 1);
@@ -280,8 +290,7 @@ void FileParser::ReadHistograms()
     while(true)
     {
         std::string histField = "Histogram" + std::to_string(i);
-        if (std::find(m_sections.begin(), m_sections.end(), histField) 
-             != m_sections.end())
+        if (HasSection(histField))
         {
             HistogramParameters histogram;
             histogram.Name = m_reader->GetString(histField, "name", histField);
diff --git a/Source/IO/Input/FileParser.hh b/Source/IO/Input/FileParser.hh
index a3fddf0..1a15d52 100644
--- a/Source/IO/Input/FileParser.hh
+++ b/Source/IO/Input/FileParser.hh
@@ -84,6 +84,9 @@ public:
 
 private:
 
+    // Checks if the file has a section (in upper or lower case)
+    bool HasSection(std::string name) const;
+
     // Checks that the vital information needed for the simulation 
     // has been set
     void CheckVitals();
-- 
2.43.0


From 8368de2a0de49e925ab587863e37ede40ba56318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 48/64] fix: counts can be written like 1e3

---
 Source/IO/Input/INIReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 65648ef..579c7b3 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -58,6 +58,9 @@ long INIReader::GetInteger(const string& section, const string& name, long defau
     char* end;
     // This parses "1234" (decimal) and also "0x4D2" (hex)
     long n = strtol(value, &end, 0);
+    // Numbers can also be written like "1e3" or "10.0"
+    if (*end == '.' || *end == 'e' || *end == 'E')
+        n = (long) strtod(value, &end);
     return end > value ? n : default_value;
 }
 
-- 
2.43.0


From 07de2b649477c3944f7e80157477df30cfa1d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 49/64] fix: refuse histograms with fewer than two bins

---
 Source/IO/Input/FileParser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index db35d72..9638d63 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -297,7 +297,14 @@ void FileParser::ReadHistograms()
             histogram.Particle = m_reader->GetString(histField, "particle", "");
             histogram.Type = m_reader->GetString(histField, "type", "");
             histogram.Time = m_reader->GetReal(histField, "time", 0) / m_units->RefTime();
-            histogram.Bins = m_reader->GetInteger(histField, "bins", 1);
+            long bins = m_reader->GetInteger(histField, "bins", 1);
+            if (bins < 2)
+            {
+                std::cerr << "Input error: " << histField << " needs at least two \"bins\"\n";
+                std::cerr << "Exiting!\n";
+                exit(1);
+            }
+            histogram.Bins = bins;
             histogram.MinBin = m_reader->GetReal(histField, "min_bin", 0);
             histogram.MaxBin = m_reader->GetReal(histField, "max_bin", 1);
             m_histograms.push_back(histogram);
-- 
2.43.0


From ce82bcc45864675b4de799aa97d942a3413fa6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 50/64] fix: refuse histograms of unknown particles or
 properties

---
 Source/IO/Input/FileParser.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 9638d63..5c0e636 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -295,7 +295,26 @@ void FileParser::ReadHistograms()
             HistogramParameters histogram;
             histogram.Name = m_reader->GetString(histField, "name", histField);
             histogram.Particle = m_reader->GetString(histField, "particle", "");
+            // Particles carry the name of their species with a capital letter
+            if (!histogram.Particle.empty()) histogram.Particle[0] = ::toupper(histogram.Particle[0]);
+            if (histogram.Particle != "Electron" && histogram.Particle != "Positron"
+                && histogram.Particle != "Photon")
+            {
+                std::cerr << "Input error: Particle \"" << histogram.Particle << "\" of "
+                          << histField << " is not recognised.\n";
+                std::cerr << "Exiting!\n";
+                exit(1);
+            }
             histogram.Type = m_reader->GetString(histField, "type", "");
+            const std::vector<std::string> types = {"Energy", "energy", "X", "x", "Y", "y",
+                "Z", "z", "PX", "px", "PY", "py", "PZ", "pz"};
+            if (std::find(types.begin(), types.end(), histogram.Type) == types.end())
+            {
+                std::cerr << "Input error: Type \"" << histogram.Type << "\" of "
+                          << histField << " is not recognised.\n";
+                std::cerr << "Exiting!\n";
+                exit(1);
+            }
             histogram.Time = m_reader->GetReal(histField, "time", 0) / m_units->RefTime();
             long bins = m_reader->GetInteger(histField, "bins", 1);
             if (bins < 2)
-- 
2.43.0


From 296f2170d763c76fa439197c99ff443c1f7acaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 51/64] fix: refuse unknown particle types and sample fractions
 before the run starts

---
 Source/IO/Input/FileParser.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 5c0e636..c7a0376 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -209,6 +209,12 @@ void FileParser::ReadPhysics()
     m_physics.Physics = m_reader->GetString("Physics", "radiation_model", "");
     m_physics.MinEnergy = m_reader->GetReal("Physics", "min_energy", 0) / m_units->RefEnergy();
     m_physics.SampleFraction = m_reader->GetReal("Physics", "sample_fraction", 1);
+    if (!(m_physics.SampleFraction >= 0 && m_physics.SampleFraction <= 1))
+    {
+        std::cerr << "Input error: \"sample_fraction\" must be between 0 and 1\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
     m_physics.PairProduction = m_reader->GetBoolean("Physics", "pair_production", false);
 
     if (m_checkOutput == true)
@@ -242,6 +248,15 @@ void FileParser::ReadParticles()
             source.Number   = number;
             source.Name     = m_reader->GetString(partField, "name", partField);
             source.Type     = m_reader->GetString(partField, "particle_type", "Electron");
+            if (source.Type != "Electron" && source.Type != "electron"
+                && source.Type != "Positron" && source.Type != "positron"
+                && source.Type != "Photon" && source.Type != "photon")
+            {
+                std::cerr << "Input error: Particle type \"" << source.Type << "\" of "
+                          << partField << " is not recognised.\n";
+                std::cerr << "Exiting!\n";
+                exit(1);
+            }
             source.Distro   = m_reader->GetString(partField, "energy_distribution", "mono");
             source.Position = m_reader->GetThreeVector(partField, "position", ThreeVector(0, 0, 0))
                                                                              / m_units->RefLength();
-- 
2.43.0


From 086e29b7411112708e4c0b49e47a3ded2da03df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 52/64] fix: QEDCascPy refuses unknown particle types instead
 of ending the interpreter

---
 Source/Python/RunManager.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index b27f5b1..876a68b 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -85,8 +85,19 @@ void RunManager::setGenerator(const std::string& particleType,
     double radius, double duration, double divergence, 
     const ThreeVector& position, const ThreeVector& direction)
 {
-    m_genSet = true;
-    m_particleType = particleType;
+    if (particleType == "Photon" || particleType == "photon" ||
+        particleType == "Electron" || particleType == "electron" ||
+        particleType == "Positron" || particleType == "positron")
+    {
+        m_genSet = true;
+        m_particleType = particleType;
+    } else
+    {
+        m_genSet = false;
+        std::cerr << "Error: Unknown particle type. Choices are: \"Electron\", "
+         "\"Positron\" or \"Photon\"." << std::endl;
+        return;
+    }
     m_energyDist = energyDist;
     m_energyParam1 = energyParam1 / m_units->RefEnergy(); 
     m_energyParam2 = energyParam2 / m_units->RefEnergy();
-- 
2.43.0


From ccbf62e795d108219b265a511cb3684bf6d74dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 53/64] fix: counts with leading zeros are decimal

---
 Source/IO/Input/INIReader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 579c7b3..e1305b0 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -56,8 +56,11 @@ long INIReader::GetInteger(const string& section, const string& name, long defau
     string valstr = Get(section, name, "");
     const char* value = valstr.c_str();
     char* end;
-    // This parses "1234" (decimal) and also "0x4D2" (hex)
-    long n = strtol(value, &end, 0);
+    // This parses "1234" (decimal, also with leading zeros) and "0x4D2" (hex)
+    const size_t digits = valstr.find_first_not_of("+-");
+    const bool hex = digits != string::npos && valstr[digits] == '0'
+        && ::tolower(value[digits + 1]) == 'x';
+    long n = strtol(value, &end, hex ? 16 : 10);
     // Numbers can also be written like "1e3" or "10.0"
     if (*end == '.' || *end == 'e' || *end == 'E')
         n = (long) strtod(value, &end);
-- 
2.43.0


From 193824e27fbc3aefc1291d911f11904268faad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 54/64] fix: the rest of a long line is not read as another
 line

---
 Source/IO/Input/ini.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Source/IO/Input/ini.cpp b/Source/IO/Input/ini.cpp
index 8d25b9a..7126720 100644
--- a/Source/IO/Input/ini.cpp
+++ b/Source/IO/Input/ini.cpp
@@ -93,6 +93,8 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
 #endif
     char section[MAX_SECTION] = "";
     char prev_name[MAX_NAME] = "";
+    char rest[INI_MAX_LINE];
+    int too_long;
 
     char* start;
     char* end;
@@ -146,11 +148,27 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
             start += 3;
         }
 #endif
+        /* The rest of a line that does not fit is not another line */
+        too_long = 0;
+        if (strlen(line) == (size_t)max_line - 1 && line[max_line - 2] != '\n') {
+            while (reader(rest, sizeof(rest), stream) != NULL) {
+                if (*lskip(rest))
+                    too_long = 1;
+                if (strchr(rest, '\n'))
+                    break;
+            }
+        }
+
         start = lskip(rstrip(start));
 
         if (strchr(INI_START_COMMENT_PREFIXES, *start)) {
             /* Start-of-line comment */
         }
+        else if (too_long && !*find_chars_or_comment(start, NULL)) {
+            /* Only a comment may be too long */
+            if (!error)
+                error = lineno;
+        }
 #if INI_ALLOW_MULTILINE
         else if (*prev_name && *start && start > line) {
             /* Non-blank line with leading whitespace, treat as continuation
-- 
2.43.0


From 7646a77de5e2a37249873cb321e4c1d612efaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 55/64] fix: refuse end times that are no number or are never
 reached

---
 Source/IO/Input/FileParser.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index c7a0376..29f5af1 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cmath>
 #include "FileParser.hh"
 #include "UnitsSystem.hh"
 #include <fstream>
@@ -60,17 +61,17 @@ void FileParser::CheckVitals()
         std::cerr << "Input error: File does not contain \"General\" field\n";
         std::cerr << "Exiting!\n";
         exit(1);
-    } else if (!(m_reader->HasValue("General", "time_step")))
+    } else if (m_reader->GetString("General", "time_step", "").empty())
     {
         std::cerr << "Input error: File does not contain \"time_step\" field\n";
         std::cerr << "Exiting!\n";
         exit(1);
-    } else if (!(m_reader->HasValue("General", "time_end")))
+    } else if (m_reader->GetString("General", "time_end", "").empty())
     {
         std::cerr << "Input error: File does not contain \"time_end\" field\n";
         std::cerr << "Exiting!\n";
         exit(1);
-    } else if (!(m_reader->HasValue("General", "units")))
+    } else if (m_reader->GetString("General", "units", "").empty())
     {
         std::cerr << "Input error: File does not contain \"Units\" field\n";
         std::cerr << "Exiting!\n";
@@ -83,10 +84,12 @@ void FileParser::ReadGeneral()
     m_general.units = m_reader->GetString("General", "units", "None");
     m_units = new UnitsSystem(m_general.units);
     m_general.timeStep = m_reader->GetReal("General", "time_step", 0) / m_units->RefTime();
-    m_general.timeEnd = m_reader->GetReal("General", "time_end", 0) / m_units->RefTime();
-    if (!(m_general.timeStep > 0))
+    m_general.timeEnd = m_reader->GetReal("General", "time_end", NAN) / m_units->RefTime();
+    if (!(m_general.timeStep > 0) || !std::isfinite(m_general.timeStep)
+        || !(m_general.timeEnd + m_general.timeStep > m_general.timeEnd))
     {
-        std::cerr << "Input error: \"time_step\" must be a positive number\n";
+        std::cerr << "Input error: \"time_step\" must be a positive number and \"time_end\" "
+                     "a number that it can reach\n";
         std::cerr << "Exiting!\n";
         exit(1);
     }
-- 
2.43.0


From 3c2d9a2dd4e90fb916c2f36412e1128de3b0f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 56/64] fix: beamOn refuses end times that are never reached

---
 Source/Python/RunManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 876a68b..d0ad5fb 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -9,6 +9,7 @@
 #include "LandauPusher.hh"
 #include "ModifiedLandauPusher.hh"
 #include <pybind11/stl.h>
+#include <cmath>
 
 #ifdef USEOPENMP
     #include <omp.h>
@@ -156,7 +157,9 @@ void RunManager::beamOn(int events, int threads)
     m_processList.clear();
 
     // Check for time / field properties
-    if (!(m_timeStep > 0) || !m_fieldSet || !m_physSet || !m_genSet)
+    if (!(m_timeStep > 0) || !std::isfinite(m_timeStep)
+        || !(m_timeEnd + m_timeStep > m_timeEnd)
+        || !m_fieldSet || !m_physSet || !m_genSet)
     {
         std::cerr << "Error in beamOn(): RunManager.setTime(...), "
                       "RunManager.setGenerator(...) and RunManager.setField(...) "
-- 
2.43.0


From c08fdaf5e5fc83d5ecdb98af057fe7f2cf6b03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 57/64] fix: photons without energy keep a defined position

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 54c1f3f..d5eea44 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -14,8 +14,8 @@ void ParticlePusher::PushParticle(Particle *part)
     if (part->IsAlive() == false) return;
     if (part->GetMass() == 0)
     {
-        ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
-                                 * part->GetMomentum();
+        ThreeVector positionNew = part->GetPosition()
+                                + m_dt * part->GetMomentum().Norm();
         part->UpdateTime(m_dt);
         part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
-- 
2.43.0


From f431421f1a850d82fab0530f1432b2a7f55b9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 58/64] fix: refuse fields without wavelength, duration or
 waist

---
 Source/IO/Input/FileParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 29f5af1..741dcf4 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -203,6 +203,15 @@ void FileParser::ReadField()
                 m_checkFile << "\n\n";
             }                                                                   
          }
+         if ((m_field.Type != "static" && !(m_field.Wavelength > 0))
+             || ((m_field.Type == "gaussian" || m_field.Type == "focusing")
+                 && (!(m_field.Duration > 0) || !(m_field.Waist > 0))))
+         {
+            std::cerr << "Input error: \"wavelength\", \"duration\" and \"waist\" of the field "
+                         "must be positive numbers\n";
+            std::cerr << "Exiting!\n";
+            exit(1);
+         }
     }
 }
 
-- 
2.43.0


From 89b21a2881be6e5e70d0e5d8f8061947660d20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 59/64] fix: end with an error when the output file cannot be
 written

---
 Source/IO/Output/HDF5Output.cpp | 76 ++++++++++++++++++++++++++-------
 Source/IO/Output/HDF5Output.hh  |  3 ++
 2 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index 086967d..2d59767 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -1,3 +1,4 @@
+#include <cstdlib>
 #include <iostream>
 
 #include "HDF5Output.hh"
@@ -10,12 +11,18 @@ m_file(NULL), m_group(NULL), m_subGroup(NULL)
 HDF5Output::HDF5Output(std::string fileName, bool append):
 m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
-    if (append == true)
+    try
     {
-        m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_RDWR);
-    } else
+        if (append == true)
+        {
+            m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_RDWR);
+        } else
+        {
+            m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC);
+        }
+    } catch (H5::Exception& error)
     {
-        m_file = new H5::H5File(m_fileName.c_str(), H5F_ACC_TRUNC);
+        WriteError();
     }
 }
 
@@ -23,9 +30,25 @@ HDF5Output::~HDF5Output()
 {
     delete m_subGroup;
     delete m_group;
+    // Data can still be waiting to be written, so closing can fail
+    try
+    {
+        if (m_file != NULL) m_file->close();
+    } catch (H5::Exception& error)
+    {
+        WriteError();
+    }
     delete m_file;
 }
 
+void HDF5Output::WriteError() const
+{
+    std::cerr << "Error: Cannot write output file \"" << m_fileName << "\"\n";
+    std::cout.flush();
+    // The library would try to write the same data again at a normal exit
+    std::_Exit(1);
+}
+
 void HDF5Output::AddGroup(std::string groupName)
 {
     if (m_group != NULL)
@@ -54,20 +77,34 @@ void HDF5Output::AddSubGroup(std::string subGroupName)
 
 void HDF5Output::AddArray1D(double* data, hsize_t length, std::string dataName)
 {
-    H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(), 
-        H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &length)));
-    set->write(data, H5::PredType::NATIVE_DOUBLE);
-    delete set;
+    try
+    {
+        H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
+            H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &length)));
+        set->write(data, H5::PredType::NATIVE_DOUBLE);
+        set->close();
+        delete set;
+    } catch (H5::Exception& error)
+    {
+        WriteError();
+    }
 }
 
 void HDF5Output::AddArray2D(double* data, hsize_t xLength, hsize_t yLength,
                            std::string dataName)
 {
     hsize_t dimensions[2] = {xLength, yLength};
-    H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
-        H5::PredType::NATIVE_DOUBLE, H5::DataSpace(2, dimensions)));
-    set->write(data, H5::PredType::NATIVE_DOUBLE);
-    delete set;
+    try
+    {
+        H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
+            H5::PredType::NATIVE_DOUBLE, H5::DataSpace(2, dimensions)));
+        set->write(data, H5::PredType::NATIVE_DOUBLE);
+        set->close();
+        delete set;
+    } catch (H5::Exception& error)
+    {
+        WriteError();
+    }
 }
 
 void HDF5Output::AddArray3D(double* data, hsize_t xLength, hsize_t yLength,
@@ -75,8 +112,15 @@ void HDF5Output::AddArray3D(double* data, hsize_t xLength, hsize_t yLength,
 {
     hsize_t dimensions[3] = {xLength, yLength, zLength};
 
-    H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
-        H5::PredType::NATIVE_DOUBLE, H5::DataSpace(3, dimensions)));
-    set->write(data, H5::PredType::NATIVE_DOUBLE);
-    delete set;
+    try
+    {
+        H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
+            H5::PredType::NATIVE_DOUBLE, H5::DataSpace(3, dimensions)));
+        set->write(data, H5::PredType::NATIVE_DOUBLE);
+        set->close();
+        delete set;
+    } catch (H5::Exception& error)
+    {
+        WriteError();
+    }
 }
\ No newline at end of file
diff --git a/Source/IO/Output/HDF5Output.hh b/Source/IO/Output/HDF5Output.hh
index 422ef87..3c36e98 100644
--- a/Source/IO/Output/HDF5Output.hh
+++ b/Source/IO/Output/HDF5Output.hh
@@ -27,6 +27,9 @@ public:
 					std::string dataName);
 
 private:
+	// Ends the program as the output file is not complete
+	void WriteError() const;
+
 	std::string m_fileName;
 	H5::H5File* m_file;
 	H5::Group* m_group;
-- 
2.43.0


From b39878722756a7e72ccda59f8aba98058154db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 60/64] fix: setField refuses fields without wavelength,
 duration or waist

---
 Source/Python/RunManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index d0ad5fb..82f1200 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -55,6 +55,13 @@ void RunManager::setField(const std::string& fieldType, double maxField,
         std::cerr << "Error: Unknown field type." << std::endl;
         return;
     }
+    if (!(wavelength > 0) || !(duration > 0) || !(waist > 0))
+    {
+        m_fieldSet = false;
+        std::cerr << "Error: Wavelength, duration and waist of the field must be "
+         "positive numbers." << std::endl;
+        return;
+    }
     m_maxField = maxField / m_units->RefEField();
     m_wavelength = wavelength / m_units->RefLength();
     m_fieldDuration = duration / m_units->RefTime();
-- 
2.43.0


From b823621d49a517418c5afed8cf1b8024c915ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 61/64] fix: RunManager releases the processes of its runs

---
 Source/Python/RunManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 82f1200..facb57b 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -30,6 +30,7 @@ RunManager::~RunManager()
     delete m_field;
     delete m_generator;
     delete m_pusher;
+    for (Process* process : m_processList) delete process;
     m_processList.clear();
 }
 
@@ -161,6 +162,7 @@ void RunManager::beamOn(int events, int threads)
     m_pusher = nullptr;
     m_generator = nullptr;
     m_field = nullptr;
+    for (Process* process : m_processList) delete process;
     m_processList.clear();
 
     // Check for time / field properties
-- 
2.43.0


From a400b0684eead701b29bfea73df90fbdc65b19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 62/64] fix: tracks of more than about 100000 steps overflowed
 the stack in SingleParticle and ListTracks

---
 Source/IO/Output/OutputManager.cpp | 67 ++++++++++++++----------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 0b336a0..9ef2f5b 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -100,14 +100,17 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             time = m_units->RefTime();
         }
 
-        double posBuff[3*part->GetPosHist().size()];
-        double momBuff[3*part->GetMomHist().size()];
-        double timeBuff[part->GetTimeHist().size()];
-        double gammaBuff[part->GetGammaHist().size()];      
-        for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+        // Tracks can be too long for the stack
+        std::vector<ThreeVector> posHist = part->GetPosHist();
+        std::vector<ThreeVector> momHist = part->GetMomHist();
+        std::vector<double> timeBuff = part->GetTimeHist();
+        std::vector<double> gammaBuff = part->GetGammaHist();
+        std::vector<double> posBuff(3*posHist.size());
+        std::vector<double> momBuff(3*momHist.size());
+        for (unsigned int i = 0; i < posHist.size(); i++)
         {
-            ThreeVector pos = part->GetPosHist()[i];
-            ThreeVector mom = part->GetMomHist()[i];
+            ThreeVector pos = posHist[i];
+            ThreeVector mom = momHist[i];
             posBuff[3*i]   = pos[0] * length;
             posBuff[3*i+1] = pos[1] * length;
             posBuff[3*i+2] = pos[2] * length;
@@ -115,20 +118,16 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             momBuff[3*i+1] = mom[1] * momentum;
             momBuff[3*i+2] = mom[2] * momentum;
         }
-        for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
+        for (unsigned int i = 0; i < timeBuff.size(); i++)
         {
-            timeBuff[i] = part->GetTimeHist()[i] * time;
-        }
-        for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
-        {
-            gammaBuff[i] = part->GetGammaHist()[i];
+            timeBuff[i] *= time;
         }
         std::string groupName = "Particles/Single/" + name;
         m_outputFile->AddGroup(groupName);
-        m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-        m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-        m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-        m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+        m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+        m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+        m_outputFile->AddArray1D(timeBuff.data(), timeBuff.size(), groupName + "/Time");
+        m_outputFile->AddArray1D(gammaBuff.data(), gammaBuff.size(), groupName + "/Gamma");
     }
 }
 
@@ -164,38 +163,36 @@ void OutputManager::ListTracks(ParticleList* partList, std::string name)
                 time = m_units->RefTime();
             }
 
-            double posBuff[3*part->GetPosHist().size()];
-            double momBuff[3*part->GetMomHist().size()];
-            double timeBuff[part->GetTimeHist().size()];
-            double gammaBuff[part->GetGammaHist().size()];      
-            for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+            std::vector<ThreeVector> posHist = part->GetPosHist();
+            std::vector<ThreeVector> momHist = part->GetMomHist();
+            std::vector<double> timeBuff = part->GetTimeHist();
+            std::vector<double> gammaBuff = part->GetGammaHist();
+            std::vector<double> posBuff(3*posHist.size());
+            std::vector<double> momBuff(3*momHist.size());
+            for (unsigned int i = 0; i < posHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    posBuff[3*i+j] = part->GetPosHist()[i][j] * length;
+                    posBuff[3*i+j] = posHist[i][j] * length;
                 }
             }
-            for (unsigned int i = 0; i < part->GetMomHist().size(); i++)
+            for (unsigned int i = 0; i < momHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    momBuff[3*i+j] = part->GetMomHist()[i][j] * momentum;
+                    momBuff[3*i+j] = momHist[i][j] * momentum;
                 }
             }
-            for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
-            {
-                timeBuff[i] = part->GetTimeHist()[i] * time;
-            }
-            for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
+            for (unsigned int i = 0; i < timeBuff.size(); i++)
             {
-                gammaBuff[i] = part->GetGammaHist()[i];
+                timeBuff[i] *= time;
             }
             std::string groupName = "Particles/ParticleList/" + name + "/" + std::to_string(i);
             m_outputFile->AddGroup(groupName);
-            m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-            m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-            m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-            m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+            m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+            m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+            m_outputFile->AddArray1D(timeBuff.data(), timeBuff.size(), groupName + "/Time");
+            m_outputFile->AddArray1D(gammaBuff.data(), gammaBuff.size(), groupName + "/Gamma");
         }
     }
 }
-- 
2.43.0


From 45eb7082b2c9ea74a14accbe95bc3b87ff83298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:01 +0000
Subject: [PATCH 63/64] fix: section names and names of continued settings were
 cut to 49 characters

---
 Source/IO/Input/ini.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Input/ini.cpp b/Source/IO/Input/ini.cpp
index 7126720..79dd886 100644
--- a/Source/IO/Input/ini.cpp
+++ b/Source/IO/Input/ini.cpp
@@ -21,8 +21,8 @@ https://github.com/benhoyt/inih
 #include <stdlib.h>
 #endif
 
-#define MAX_SECTION 50
-#define MAX_NAME 50
+#define MAX_SECTION INI_MAX_LINE
+#define MAX_NAME INI_MAX_LINE
 
 /* Used by ini_parse_string() to keep track of string parsing state. */
 typedef struct {
-- 
2.43.0


From b07401a29865df5275090b73a0282c4c97ae62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:15 +0000
Subject: [PATCH 64/64] fix: focusing field with a negative amplitude was zero
 everywhere

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 23fd6f4..3e7636f 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -44,7 +44,7 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     double E_0 = m_maxE * std::exp(- r2 / (w * w) - (time - m_t0 - position_p[2])
             * (time - m_t0 - position_p[2]) / (m_tau * m_tau));
 
-    if (E_0 < 1.0e-15)
+    if (std::abs(E_0) < 1.0e-15)
     {
           eField = ThreeVector(0, 0, 0);
           bField = ThreeVector(0, 0, 0);
-- 
2.43.0

