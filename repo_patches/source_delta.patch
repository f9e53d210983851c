From 12acb40999311e4aeca896d4c514be545b86f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 01/33] Add observation points for runtime monitors behind
 MINIMC_MONITOR

---
 src/Estimator.cpp   |  2 ++
 src/FixedSource.cpp |  3 +++
 src/Monitor.hpp     | 44 ++++++++++++++++++++++++++++++++++++++++++++
 src/Particle.cpp    |  3 +++
 4 files changed, 52 insertions(+)
 create mode 100644 src/Monitor.hpp

diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index cbf909e..0c1d1aa 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -1,6 +1,7 @@
 #include "Estimator.hpp"
 
 #include "Bins.hpp"
+#include "Monitor.hpp"
 #include "Particle.hpp"
 #include "Sensitivity.hpp"
 #include "World.hpp"
@@ -245,6 +246,7 @@ EstimatorSetProxy::EstimatorSetProxy(const EstimatorSet& init) noexcept
       }()} {}
 
 void EstimatorSetProxy::Score(const Particle& p) noexcept {
+  MINIMC_MONITOR_HOOK(Step(p));
   std::for_each(
       estimator_proxies.begin(), estimator_proxies.end(),
       [&p](auto& estimator_proxy) { estimator_proxy.Score(p); });
diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index fee2165..41467cd 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -1,5 +1,6 @@
 #include "FixedSource.hpp"
 
+#include "Monitor.hpp"
 #include "Particle.hpp"
 #include "TransportMethod.hpp"
 #include "pugixml.hpp"
@@ -56,6 +57,7 @@ EstimatorSet FixedSource::StartWorker() {
       std::cout << '\r' << static_cast<double>(elapsed) / batchsize * 100
                 << "% complete...";
     }
+    MINIMC_MONITOR_HOOK(HistoryBegin(elapsed));
     Bank bank;
     // use the remaining number of histories run for the seed
     bank.emplace_back(source.Sample(seed + elapsed));
@@ -72,6 +74,7 @@ EstimatorSet FixedSource::StartWorker() {
     }
     // add the scores stored by the proxy to worker_estimator_set
     scoring_proxy.CommitHistory();
+    MINIMC_MONITOR_HOOK(HistoryEnd(elapsed));
   }
   return worker_estimator_set;
 }
diff --git a/src/Monitor.hpp b/src/Monitor.hpp
new file mode 100644
index 0000000..8d5f122
--- /dev/null
+++ b/src/Monitor.hpp
@@ -0,0 +1,44 @@
+#pragma once
+
+/// @file
+/// @brief Observation points for runtime monitors
+/// @details Nothing here is compiled unless `MINIMC_MONITOR` is defined. When
+///          it is, the monitoring harness must define the functions declared
+///          below. They only observe.
+
+#ifdef MINIMC_MONITOR
+
+#include <cstddef>
+
+class Particle;
+
+namespace monitor {
+/// @brief A worker has claimed a history
+void HistoryBegin(std::size_t history) noexcept;
+/// @brief A worker has added the scores of its current history to its results
+void HistoryEnd(std::size_t history) noexcept;
+/// @brief A Particle is about to be transported
+void TransportBegin(const Particle& p) noexcept;
+/// @brief A Particle has been transported
+void TransportEnd(const Particle& p) noexcept;
+/// @brief Brackets the transport of a Particle
+struct TransportScope {
+  explicit TransportScope(const Particle& p) noexcept : p{p} {
+    TransportBegin(p);
+  }
+  ~TransportScope() noexcept { TransportEnd(p); }
+  const Particle& p;
+};
+/// @brief An event of a Particle is about to be scored
+void Step(const Particle& p) noexcept;
+/// @brief A secondary has been added to the secondaries of its parent
+void Secondary(const Particle& parent, const Particle& secondary) noexcept;
+} // namespace monitor
+
+#define MINIMC_MONITOR_HOOK(call) monitor::call
+
+#else
+
+#define MINIMC_MONITOR_HOOK(call)
+
+#endif
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3a59b98..b85022c 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -3,6 +3,7 @@
 #include "Cell.hpp"
 #include "Constants.hpp"
 #include "Material.hpp"
+#include "Monitor.hpp"
 #include "Nuclide.hpp"
 #include "Perturbation.hpp"
 #include "TransportMethod.hpp"
@@ -40,6 +41,7 @@ Particle::Particle(
       rng{seed}, type{type} {}
 
 Bank Particle::Transport(EstimatorSetProxy& e, const World& w) noexcept {
+  MINIMC_MONITOR_HOOK(TransportScope monitor_scope{*this});
   return transport_method->Transport(*this, e, w);
 }
 
@@ -97,6 +99,7 @@ void Particle::BankSecondaries(
     const Direction& direction, const Energy& energy) noexcept {
   secondaries.emplace_back(
       position, direction, energy, Type::neutron, rng(), cell);
+  MINIMC_MONITOR_HOOK(Secondary(*this, secondaries.back()));
 }
 
 void Particle::MoveSecondariesTo(Bank& bank) noexcept {
-- 
2.43.0


From 5b4d11f4c911897330ab6bda01d0630616896871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 02/33] fix: compare the distance to a CylinderX axis with its
 radius

CylinderX::Contains compared the distance to the axis with the squared
radius, so inside and outside were wrong unless the radius was one.
---
 src/CSGSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..cc0a01f 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -170,5 +170,5 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   const auto pw = p.Dot(w);
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return pp - pw * pw < radius * radius;
 }
-- 
2.43.0


From 38f6c976bc6b57d1798085d851b57384266cac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 03/33] fix: avoid cancellation in CylinderX for rays along and
 points far along the axis

1 - (d.w)^2 lost all digits for directions within 1e-8 of the axis, giving
crossings at wrong distances or where there are none.
---
 src/CSGSurface.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index cc0a01f..a53737a 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -148,27 +148,22 @@ CylinderX::CylinderX(const pugi::xml_node& cylinderx_node) noexcept
 Real CylinderX::Distance(
     const Point& origin, const Direction& direction) const noexcept {
   // axis of the cylinder
-  const auto w = Direction{1, 0, 0};
-  // square norm of origin p
-  const auto pp = origin.Dot(origin);
-  // component of origin p along w
-  const auto pw = origin.Dot(w);
-  // component of direction d along w
-  const auto dw = direction.Dot(w);
-  // component of origin p along direction d
-  const auto pd = origin.Dot(direction);
+  const Direction w{1, 0, 0};
+  // components of origin and direction perpendicular to the axis; subtracting
+  // squares instead would cancel catastrophically if either is nearly along w
+  const Point p_perp{origin - origin.Dot(w) * w};
+  const Point d_perp{direction - direction.Dot(w) * w};
   return SolveQuadratic(
-      1 - dw * dw, 2 * (pd - pw * dw), pp - pw * pw - radius * radius);
+      d_perp.Dot(d_perp), 2 * p_perp.Dot(d_perp),
+      p_perp.Dot(p_perp) - radius * radius);
 }
 
 bool CylinderX::Contains(const Point& p) const noexcept {
   // axis of the cylinder
-  const auto w = Direction{1, 0, 0};
-  // square norm of p
-  const auto pp = p.Dot(p);
-  // component of position p along w
-  const auto pw = p.Dot(w);
+  const Direction w{1, 0, 0};
+  // component of p perpendicular to the axis
+  const Point p_perp{p - p.Dot(w) * w};
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return pp - pw * pw < radius * radius;
+  return p_perp.Dot(p_perp) < radius * radius;
 }
-- 
2.43.0


From f79b3354a9b68999848a66aa02c255f03fcfcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 04/33] fix: nudge particles far enough to cross the surface

The fixed nudge of 10 epsilon vanishes for large coordinates or grazing
incidence, leaving the particle on the old side of the surface.
---
 src/TransportMethod.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..d8d9d17 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -1,21 +1,46 @@
 #include "TransportMethod.hpp"
 
+#include "BasicTypes.hpp"
+#include "CSGSurface.hpp"
 #include "Cell.hpp"
 #include "Constants.hpp"
 #include "Estimator.hpp"
 #include "Material.hpp"
 #include "Nuclide.hpp"
 #include "Particle.hpp"
+#include "Point.hpp"
 #include "World.hpp"
 #include "pugixml.hpp"
 
 #include <cassert>
 #include <iosfwd>
+#include <map>
+#include <memory>
 #include <random>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
 
+namespace {
+
+// Returns how far a Particle must travel to end up on the other side of the
+// CSGSurface it is about to cross. Because of finite floating point precision,
+// this depends on the magnitude of the coordinates and the angle of incidence.
+Real GetDistanceAcross(
+    const Particle& p, const std::shared_ptr<const CSGSurface>& surface,
+    const Real distance) {
+  const auto sense = p.GetCell().surface_senses.at(surface);
+  for (auto nudge = constants::nudge; nudge < 1; nudge *= 2) {
+    if (surface->Contains(
+            p.GetPosition() + p.GetDirection() * (distance + nudge)) != sense) {
+      return distance + nudge;
+    }
+  }
+  return distance + constants::nudge;
+}
+
+} // namespace
+
 // TransportMethod
 
 //// public
@@ -65,7 +90,8 @@ Bank SurfaceTracking::Transport(
       nuclide.Interact(p);
     }
     else {
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(
+          GetDistanceAcross(p, nearest_surface, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
@@ -97,7 +123,8 @@ Bank CellDeltaTracking::Transport(
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(
+          GetDistanceAcross(p, nearest_surface, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
-- 
2.43.0


From 3cc34ecb8897a5b42fea91879c66969c6a27341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 05/33] fix: reject evaluations above the requested temperature

IsValid() compared a signed difference, so an evaluation at a much higher
temperature than requested was used unadjusted.
---
 src/ContinuousEvaluation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ContinuousEvaluation.cpp b/src/ContinuousEvaluation.cpp
index db8f13a..d6da8b5 100644
--- a/src/ContinuousEvaluation.cpp
+++ b/src/ContinuousEvaluation.cpp
@@ -4,6 +4,8 @@
 #include "HDF5DataSet.hpp"
 #include "pugixml.hpp"
 
+#include <cmath>
+
 // ContinuousEvaluation
 
 //// public
@@ -15,6 +17,7 @@ ContinuousEvaluation::ContinuousEvaluation(
       temperature{evaluation_node.attribute("temperature").as_double()} {}
 
 bool ContinuousEvaluation::IsValid(Temperature requested) const noexcept {
-  const auto relative_error = (requested - temperature) / temperature;
+  const auto relative_error =
+      std::abs(requested - temperature) / temperature;
   return relative_error < constants::relative_temperature_difference_tolerance;
 }
-- 
2.43.0


From 6e3358992078b7979f229f092b6e9e2facaeb018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 06/33] fix: use the highest temperature of the thermal
 scattering grid above it

The interpolation factor selected the second highest one.
---
 src/ThermalScattering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..510d623 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -151,7 +151,7 @@ ThermalScattering::GetTotal(const Particle& p) const noexcept {
   const auto T_lo = Ts.at(T_lo_i);
   const auto T_hi = Ts.at(T_hi_i);
   const auto r_T = below_T_min   ? 1
-                   : above_T_max ? 0
+                   : above_T_max ? 1
                                  : (T - T_lo) / (T_hi - T_lo);
   return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);
 }
-- 
2.43.0


From 0f54cd81f5264b0b4d5fb728d8cd4002d3c2e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 07/33] fix: parenthesize interpolation between beta grids

---
 src/ThermalScattering.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 510d623..04820c5 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -361,8 +361,8 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const Real r = snap_to_lower ? 0
                  : snap_to_min
                      ? 1
-                     : (abs_b - betas.at(b_hi_i - 1) /
-                                    (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));
+                     : (abs_b - betas.at(b_hi_i - 1)) /
+                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
   Beta b_s = sgn_b * betas.at(b_s_i);
-- 
2.43.0


From 64849a6f74fde428a09c5c6efa5223dddbbf3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 08/33] fix: accept delta tracking collisions with the cross
 section at their site

The cross section at the beginning of the flight was used.
---
 src/TransportMethod.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index d8d9d17..ec50cd6 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -130,18 +130,21 @@ Bank CellDeltaTracking::Transport(
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
     }
-    else if (std::bernoulli_distribution{
-                 p.GetCell().material->GetMicroscopicTotal(p) /
-                 p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
-      // a real collision occurs
-      p.Stream(distance_to_collision);
-      const auto& nuclide = p.SampleNuclide();
-      nuclide.Interact(p);
-    }
     else {
-      // a virtual collision occurs, do nothing
+      // temperature may vary along the flight, so evaluate cross sections at
+      // the site of the tentative collision
       p.Stream(distance_to_collision);
-      p.event = Particle::Event::virtual_collision;
+      if (std::bernoulli_distribution{
+              p.GetCell().material->GetMicroscopicTotal(p) /
+              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+        // a real collision occurs
+        const auto& nuclide = p.SampleNuclide();
+        nuclide.Interact(p);
+      }
+      else {
+        // a virtual collision occurs, do nothing
+        p.event = Particle::Event::virtual_collision;
+      }
     }
     e.Score(p);
   }
-- 
2.43.0


From fe1f672e7f425ceed0c228dbf3d1682781c8c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 09/33] fix: put nonpositive values below the lowest bin of
 LogspaceBins

The logarithm of a negative value is not a number, and converting it to an
index is undefined behavior.
---
 src/Bins.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..701648e 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -110,6 +110,10 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
 size_t LogspaceBins::size() const noexcept { return n_bins; }
 
 size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
+  // the logarithm of a nonpositive value is not in any bin
+  if (v <= 0) {
+    return 0;
+  }
   const auto log_v = std::log(v) / std::log(base);
   if (log_v < log_lower_bound) {
     return 0;
-- 
2.43.0


From 7a35165ded8d951efd47ec3985f4d2a14a08fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 10/33] fix: do not report nan as the standard deviation of
 equal scores

---
 src/Scorable.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index cfcf088..c6338ec 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -61,9 +61,10 @@ std::string Scorable::GetScoreAsString(const Real total_weight) const noexcept {
   for (size_t i = 0; i < scores.size(); i++) { // gross
     const auto& score = scores[i];
     const auto& square_score = square_scores[i];
-    sstream << std::sqrt(square_score - score * score / total_weight) /
-                   total_weight
-            << ", ";
+    // roundoff may result in a slightly negative value
+    const auto sum_of_squares =
+        std::max(Real{0}, square_score - score * score / total_weight);
+    sstream << std::sqrt(sum_of_squares) / total_weight << ", ";
   }
   sstream << "\n\n";
   return sstream.str();
-- 
2.43.0


From 1260be7ca010301b56115adcd8a6e81afef39cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 11/33] fix: release strings transcoded by Xerces with the
 matching deallocator

---
 src/XMLDocument.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index d9d556d..219ebc0 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -7,7 +7,6 @@
 #include "xercesc/util/XMLString.hpp"
 
 #include <iosfwd>
-#include <memory>
 #include <stdexcept>
 #include <string>
 
@@ -16,9 +15,11 @@ XMLDocument::XMLDocument(const std::filesystem::path& xml_filepath)
 
 // Convert from XMLCh array to std::string
 std::string toCharString(const XMLCh* const str) {
-  // unique_ptr is here because transcode gives us ownership of a char array
-  std::unique_ptr<const char[]> p{xercesc::XMLString::transcode(str)};
-  return std::string{p.get()};
+  // transcode gives us ownership of a char array which must be released
+  auto* p = xercesc::XMLString::transcode(str);
+  const std::string result{p};
+  xercesc::XMLString::release(&p);
+  return result;
 }
 
 // RAII wrapper for initializing and terminating the Xerces system.
-- 
2.43.0


From 297d3d2eece01dfa857caf154a0382e764b182c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 12/33] fix: let constructors reading the input report errors

Errors in bins, perturbations, sensitivities, and thermal scattering data
called std::terminate() because these functions were declared noexcept.
---
 src/Bins.cpp              | 2 +-
 src/Bins.hpp              | 2 +-
 src/Estimator.cpp         | 2 +-
 src/Estimator.hpp         | 2 +-
 src/Perturbation.cpp      | 4 ++--
 src/Perturbation.hpp      | 4 ++--
 src/Scorable.cpp          | 2 +-
 src/Scorable.hpp          | 2 +-
 src/ThermalScattering.cpp | 6 +++---
 src/ThermalScattering.hpp | 2 +-
 10 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 701648e..bc346b8 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -177,7 +177,7 @@ std::string BoundaryBins::to_string() const noexcept {
 
 //// public
 
-ParticleBins::ParticleBins(const pugi::xml_node& bins_node) noexcept
+ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
       direction{[&bins_node]() noexcept {
         const auto& cosine_node = bins_node.child("cosine");
diff --git a/src/Bins.hpp b/src/Bins.hpp
index 4a13170..e442420 100644
--- a/src/Bins.hpp
+++ b/src/Bins.hpp
@@ -132,7 +132,7 @@ private:
 class ParticleBins {
 public:
   /// @brief Constructs a ParticleBins from a `bins` node of an XML document
-  ParticleBins(const pugi::xml_node& bins_node) noexcept;
+  ParticleBins(const pugi::xml_node& bins_node);
   /// @brief Total number of bins used
   size_t size() const noexcept;
   /// @brief Maps a point in @ref estimators_phase_space "phase space" @f$ X
diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index 0c1d1aa..97e7012 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -76,7 +76,7 @@ Estimator& Estimator::operator+=(const Estimator& other) noexcept {
 
 Estimator::Estimator(
     const pugi::xml_node& estimator_node,
-    const PerturbationSet& perturbations) noexcept
+    const PerturbationSet& perturbations)
     : Scorable{
       estimator_node.attribute("name").as_string(),
       estimator_node.child("bins")},
diff --git a/src/Estimator.hpp b/src/Estimator.hpp
index 63f7c35..6ced3f3 100644
--- a/src/Estimator.hpp
+++ b/src/Estimator.hpp
@@ -46,7 +46,7 @@ protected:
   /// @brief Constructs an Estimator from an XML node
   Estimator(
       const pugi::xml_node& estimator_node,
-      const PerturbationSet& perturbations) noexcept;
+      const PerturbationSet& perturbations);
 
 private:
   // Sensitivity objects which depend on this Estimator
diff --git a/src/Perturbation.cpp b/src/Perturbation.cpp
index 8326cab..9f7c358 100644
--- a/src/Perturbation.cpp
+++ b/src/Perturbation.cpp
@@ -20,7 +20,7 @@
 //// public
 
 std::unique_ptr<Perturbation> Perturbation::Create(
-    const pugi::xml_node& perturbation_node, const World& world) noexcept {
+    const pugi::xml_node& perturbation_node, const World& world) {
   const std::string perturbation_type = perturbation_node.name();
   if (perturbation_type == "total") {
     return std::make_unique<TotalCrossSectionPerturbation>(
@@ -87,7 +87,7 @@ Real TotalCrossSectionPerturbation::Scatter(
 //// public
 
 PerturbationSet::PerturbationSet(
-    const pugi::xml_node& perturbations_node, const World& world) noexcept
+    const pugi::xml_node& perturbations_node, const World& world)
     : perturbations{[&perturbations_node, &world]() {
         std::vector<std::unique_ptr<const Perturbation>> result;
         for (const auto& perturbation_node : perturbations_node) {
diff --git a/src/Perturbation.hpp b/src/Perturbation.hpp
index 4ccc600..d7a6849 100644
--- a/src/Perturbation.hpp
+++ b/src/Perturbation.hpp
@@ -25,7 +25,7 @@ public:
   /// @brief Factory method to create a new Perturbation from a perturbation
   ///        node of an XML document
   static std::unique_ptr<Perturbation>
-  Create(const pugi::xml_node& perturbation_node, const World& world) noexcept;
+  Create(const pugi::xml_node& perturbation_node, const World& world);
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Perturbation() noexcept;
   /// @brief Create a Sensitivity estimator from a `perturbation` child of a
@@ -84,7 +84,7 @@ public:
   /// @brief Constructs a PerturbationSet from a `perturbations` node of an XML
   ///        document
   PerturbationSet(
-      const pugi::xml_node& perturbations_node, const World& world) noexcept;
+      const pugi::xml_node& perturbations_node, const World& world);
   /// @brief Returns the Perturbation with the given name
   /// @exception std::runtime_error Perturbation with given name not found
   /// @todo Template along with EstimatorSet::FindEstimatorByName
diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index c6338ec..48ca28a 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -15,7 +15,7 @@
 //// public
 
 Scorable::Scorable(
-    const std::string& name, const pugi::xml_node& bins_node) noexcept
+    const std::string& name, const pugi::xml_node& bins_node)
     : name{name}, bins{std::make_shared<ParticleBins>(bins_node)},
       scores(bins->size(), 0), square_scores(bins->size(), 0) {}
 
diff --git a/src/Scorable.hpp b/src/Scorable.hpp
index 3c8b756..7ed79ca 100644
--- a/src/Scorable.hpp
+++ b/src/Scorable.hpp
@@ -28,7 +28,7 @@ class Scorable {
 public:
   /// @brief Constructs a Scorable from a `bins` node of an XML document
   /// @details All scores are initialized to zero
-  Scorable(const std::string& name, const pugi::xml_node& bins_node) noexcept;
+  Scorable(const std::string& name, const pugi::xml_node& bins_node);
   /// @brief Constructs an Scorable from an existing estimator and
   ///        perturbation
   /// @details All scores are initialized to zero
diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 04820c5..fe188e5 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -22,14 +22,14 @@
 
 //// public
 
-ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
+ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
     : majorant{HDF5DataSet<1>{tsl_node.attribute("majorant").as_string()}
                    .ToContinuousMap()},
       scatter_xs_T{tsl_node.attribute("total_T").as_string()},
       scatter_xs_S{tsl_node.attribute("total_S").as_string()},
       scatter_xs_E{tsl_node.attribute("total_E").as_string()},
       // IIFE
-      beta_partitions{[&tsl_node]() noexcept {
+      beta_partitions{[&tsl_node]() {
         std::vector<BetaPartition> result;
         for (const auto& partition_node : tsl_node.child("beta_partitions")) {
           result.emplace_back(partition_node);
@@ -62,7 +62,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
         return result;
       }()},
       // IIFE
-      alpha_partitions{[&tsl_node]() noexcept {
+      alpha_partitions{[&tsl_node]() {
         std::vector<AlphaPartition> result;
         for (const auto& partition_node : tsl_node.child("alpha_partitions")) {
           result.emplace_back(partition_node);
diff --git a/src/ThermalScattering.hpp b/src/ThermalScattering.hpp
index 25b2d06..e45d3d2 100644
--- a/src/ThermalScattering.hpp
+++ b/src/ThermalScattering.hpp
@@ -28,7 +28,7 @@ public:
   /// @brief Dimensionless momentum transfer
   using Alpha = Real;
   /// @brief Constructs thermal scattering data from a `tsl` node
-  ThermalScattering(const pugi::xml_node& tsl_node) noexcept;
+  ThermalScattering(const pugi::xml_node& tsl_node);
   /// @brief Returns true if Particle is Type::neutron and is strictly below
   ///        the cutoff energy
   bool IsValid(const Particle& p) const noexcept;
-- 
2.43.0


From 49bd62ce26fdf59fa46098f14c9b120aa55c8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 13/33] fix: give secondaries random numbers other than those
 of their parent

A secondary was seeded with the entire state of its parent's generator, so it
repeated the numbers its parent used to emit subsequent secondaries.
---
 src/Particle.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index b85022c..1741c4c 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -97,8 +97,12 @@ void Particle::SetCell(const Cell& c) noexcept { cell = &c; };
 
 void Particle::BankSecondaries(
     const Direction& direction, const Energy& energy) noexcept {
+  // The output of RNG is its entire state. Seeding a secondary with it would
+  // make the secondary repeat the random numbers this Particle samples next.
+  std::seed_seq seed_sequence{rng()};
   secondaries.emplace_back(
-      position, direction, energy, Type::neutron, rng(), cell);
+      position, direction, energy, Type::neutron,
+      RNG{seed_sequence}(), cell);
   MINIMC_MONITOR_HOOK(Secondary(*this, secondaries.back()));
 }
 
-- 
2.43.0


From 42a24c37b4277cdfbd5bccb7fefb48a535a3094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 14/33] fix: report errors and fail instead of aborting

main() did not catch any exception, so every invalid input called abort().
---
 src/minimc.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/minimc.cpp b/src/minimc.cpp
index a43ae37..763f8f8 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -1,13 +1,16 @@
 #include "Driver.hpp"
 #include "Estimator.hpp"
+#include "H5Cpp.h"
 
+#include <cstdlib>
+#include <exception>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <memory>
 #include <stdexcept>
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
   std::cout << "Welcome to MiniMC!" << std::endl;
   if (argc != 2) {
     throw std::runtime_error("MiniMC accepts exactly one argument");
@@ -24,3 +27,12 @@ int main(int argc, char* argv[]) {
             << std::filesystem::absolute(output_filepath) << std::endl;
   return 0;
 }
+catch (const std::exception& e) {
+  std::cerr << "Error: " << e.what() << std::endl;
+  return EXIT_FAILURE;
+}
+catch (const H5::Exception& e) {
+  // not derived from std::exception
+  std::cerr << "Error: " << e.getDetailMsg() << std::endl;
+  return EXIT_FAILURE;
+}
-- 
2.43.0


From 80f27b67b17ae1ee2cfc87227caaf463fb1746ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 15/33] fix: sample thermal scattering at the lowest
 temperature of the grid below it

Interpolating between a temperature and itself resulted in nan. This was also
the case for any temperature if the grid consists of a single one.
---
 src/ThermalScattering.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index fe188e5..d3d7483 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -206,6 +206,11 @@ ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
                  E_T_modes.at(E_index, T_lo_i, order);
   }
 
+  // Nothing to interpolate if T < T_min or there is only one temperature
+  if (T_hi_i == T_lo_i) {
+    return beta_T_lo;
+  }
+
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
@@ -247,6 +252,11 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
                   beta_T_modes.at(beta_index, T_lo_i, order);
   }
 
+  // Nothing to interpolate if T < T_min or there is only one temperature
+  if (T_hi_i == T_lo_i) {
+    return alpha_T_lo;
+  }
+
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-- 
2.43.0


From 77a1acd0ea0f44feb2082499c05ba92e9a1cd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:42 +0000
Subject: [PATCH 16/33] fix: sample alpha if E / kT is less than the smallest
 beta

The index of the grid below the smallest beta was used, which terminated the
program for downscatters of sufficiently slow neutrons.
---
 src/ThermalScattering.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index d3d7483..dc3138d 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -362,11 +362,12 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   // b_lo <= abs_b < b_hi
   // For positive b, if beta_cutoff <= b_hi, we force the use of b_lo
   // For negative b, if -b_hi < - E / (k * T), we force the use of b_lo
-  const bool snap_to_lower =
+  const bool is_hi_invalid =
       ((sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
        (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
   // Handle case where abs_b is less than the smallest beta provided, b_min
   const bool snap_to_min = b_hi_i == 0;
+  const bool snap_to_lower = is_hi_invalid && !snap_to_min;
   // Determine interpolation factor and sample a beta grid to use, b_s
   const Real r = snap_to_lower ? 0
                  : snap_to_min
@@ -375,7 +376,9 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
                            (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
-  Beta b_s = sgn_b * betas.at(b_s_i);
+  // If there is no valid beta, use the limits of alpha at the actual beta
+  const Beta b_s =
+      is_hi_invalid && snap_to_min ? b : sgn_b * betas.at(b_s_i);
 
   // compute minimum and maximum possible value of alpha
   const auto sqrt_E = std::sqrt(E);
-- 
2.43.0


From da4410aa89100143bf3503ea5875091d2f778430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 17/33] fix: refuse bins whose boundaries do not increase

---
 src/Bins.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index bc346b8..9aed950 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -59,7 +59,7 @@ LinspaceBins::LinspaceBins(const pugi::xml_node& linspace_node)
       lower_bound{linspace_node.attribute("min").as_double()},
       upper_bound{[this, &linspace_node]() {
         const auto upper_bound = linspace_node.attribute("max").as_double();
-        if (upper_bound <= lower_bound) {
+        if (!(upper_bound > lower_bound && std::isfinite(upper_bound - lower_bound))) {
           throw std::runtime_error(
               linspace_node.path() + ": max must be strictly greater than min");
         }
@@ -95,11 +95,19 @@ std::string LinspaceBins::to_string() const noexcept {
 
 LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
     : n_bins{logspace_node.attribute("bins").as_ullong() + 2},
-      base{logspace_node.attribute("base").as_double(10)},
+      // IIFE
+      base{[&logspace_node]() {
+        const auto base = logspace_node.attribute("base").as_double(10);
+        if (!(base > 1 && std::isfinite(base))) {
+          throw std::runtime_error(
+              logspace_node.path() + ": base must be greater than 1");
+        }
+        return base;
+      }()},
       log_lower_bound{logspace_node.attribute("min").as_double()},
       log_upper_bound{[this, &logspace_node]() {
         const auto log_upper_bound = logspace_node.attribute("max").as_double();
-        if (log_upper_bound <= log_lower_bound) {
+        if (!(log_upper_bound > log_lower_bound && std::isfinite(log_upper_bound - log_lower_bound))) {
           throw std::runtime_error(
               logspace_node.path() + ": max must be strictly greater than min");
         }
@@ -154,6 +162,10 @@ BoundaryBins::BoundaryBins(const pugi::xml_node& boundaries_node)
           result.push_back(boundary);
           prev_boundary = boundary;
         }
+        if (!boundary_stringlist.eof()) {
+          throw std::runtime_error(
+              boundaries_node.path() + ": boundaries must be finite numbers");
+        }
         return result;
       }()} {}
 
-- 
2.43.0


From c4bbb14a5c9d6bdad6725b373763ab2494ec8788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 18/33] fix: order the nuclides of a material by name instead
 of address

---
 src/Material.cpp |  6 ++++++
 src/Material.hpp | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Material.cpp b/src/Material.cpp
index 9a5bbdf..c1c2451 100644
--- a/src/Material.cpp
+++ b/src/Material.cpp
@@ -13,6 +13,12 @@
 
 //// public
 
+bool Material::CompareNames::operator()(
+    const std::shared_ptr<const Nuclide>& lhs,
+    const std::shared_ptr<const Nuclide>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 pugi::xml_node Material::FindNode(
     const pugi::xml_node& root, const std::string& material_name) {
   const auto& materials_node{root.child("materials")};
diff --git a/src/Material.hpp b/src/Material.hpp
index 63338c0..0227f6e 100644
--- a/src/Material.hpp
+++ b/src/Material.hpp
@@ -16,8 +16,16 @@ class Particle;
 /// @details Nuclear properties are in NuclearData objects
 class Material {
 public:
+  /// @brief Orders Nuclide objects by their name so that sampling does not
+  ///        depend on where they happen to be allocated
+  struct CompareNames {
+    bool operator()(
+        const std::shared_ptr<const Nuclide>& lhs,
+        const std::shared_ptr<const Nuclide>& rhs) const noexcept;
+  };
   /// @brief Nuclide objects and their associated atom fractions
-  using AtomFractions = std::map<std::shared_ptr<const Nuclide>, Real>;
+  using AtomFractions =
+      std::map<std::shared_ptr<const Nuclide>, Real, CompareNames>;
   /// @brief Find `material` node with given name in XML document
   /// @param root Root node of existing XML document
   /// @param material_name Value of `name` attribute of `material` node
-- 
2.43.0


From 160f3ed5cf48eb53ebb2098737a2dab5f6981e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 19/33] fix: bound scattering in cold parts of a cell where it
 is not adjusted

---
 src/ContinuousReaction.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ContinuousReaction.cpp b/src/ContinuousReaction.cpp
index 214b680..51ae752 100644
--- a/src/ContinuousReaction.cpp
+++ b/src/ContinuousReaction.cpp
@@ -9,6 +9,7 @@
 #include "ScalarField.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <random>
@@ -86,9 +87,16 @@ ContinuousScatter::GetMajorant(const Particle& p) const noexcept {
   else if (IsFreeGasScatteringValid(p, T_max)) {
     // unadjust evaluated temperature then readjust cross section to requested
     // temperature
-    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy())) /
-           GetFreeGasScatterAdjustment(p, evaluation.temperature) *
-           GetFreeGasScatterAdjustment(p, T_max);
+    const auto unadjusted =
+        evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+    const auto adjusted = unadjusted /
+                          GetFreeGasScatterAdjustment(p, evaluation.temperature) *
+                          GetFreeGasScatterAdjustment(p, T_max);
+    // free gas scattering may not be valid in colder parts of the Cell, where
+    // the cross section is not adjusted
+    return IsFreeGasScatteringValid(p, p.GetCell().temperature->lower_bound)
+               ? adjusted
+               : std::max(adjusted, unadjusted);
   }
   else {
     return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
-- 
2.43.0


From ff6bfd47f50bb4715a911b1d4685c5187bfcb69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:44 +0000
Subject: [PATCH 20/33] fix: let nested continuous maps be evaluated

---
 src/ContinuousMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ContinuousMap.hpp b/src/ContinuousMap.hpp
index 3c8beaf..7fe5526 100644
--- a/src/ContinuousMap.hpp
+++ b/src/ContinuousMap.hpp
@@ -18,7 +18,7 @@ public:
   /// @tparam Args Type of inner keys
   /// @todo Support other interpolation methods
   template <typename... Args>
-  T at(const Key k, Args... inner_keys) const noexcept {
+  auto at(const Key k, Args... inner_keys) const noexcept {
     const auto it_hi = elements.upper_bound(k);
     if constexpr (sizeof...(Args) == 0){
       // base case
-- 
2.43.0


From 7d52881e9d9954941fdc09ee6eca20664723bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:58 +0000
Subject: [PATCH 21/33] fix: report a particle outside of all cells instead of
 terminating

---
 src/Particle.cpp        | 2 +-
 src/Particle.hpp        | 2 +-
 src/TransportMethod.cpp | 4 ++--
 src/TransportMethod.hpp | 7 ++++---
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 1741c4c..5e7988b 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -40,7 +40,7 @@ Particle::Particle(
     : position{position}, direction{direction}, energy{energy}, cell{cell},
       rng{seed}, type{type} {}
 
-Bank Particle::Transport(EstimatorSetProxy& e, const World& w) noexcept {
+Bank Particle::Transport(EstimatorSetProxy& e, const World& w) {
   MINIMC_MONITOR_HOOK(TransportScope monitor_scope{*this});
   return transport_method->Transport(*this, e, w);
 }
diff --git a/src/Particle.hpp b/src/Particle.hpp
index 178a9b4..5f4a4fe 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -52,7 +52,7 @@ public:
       const Cell* cell = nullptr) noexcept;
   /// @brief Use Particle::transport_method to update Particle state until it
   ///        dies
-  Bank Transport(EstimatorSetProxy& e, const World& w) noexcept;
+  Bank Transport(EstimatorSetProxy& e, const World& w);
   /// @brief Moves the particle along its current direction a given distance
   void Stream(const Real distance) noexcept;
   /// @brief Scatters the Particle with an outgoing direction and energy.
diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index ec50cd6..d478e62 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -75,7 +75,7 @@ TransportMethod::~TransportMethod() noexcept {}
 // SurfaceTracking
 
 Bank SurfaceTracking::Transport(
-    Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
+    Particle& p, EstimatorSetProxy& e, const World& w) const {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
   while (p.IsAlive()) {
@@ -112,7 +112,7 @@ MicroscopicCrossSection SurfaceTracking::GetCollisionProbabilityDensity(
 // TODO: Remove embarrasing amount of code duplication between this and
 // SurfaceTracking
 Bank CellDeltaTracking::Transport(
-    Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
+    Particle& p, EstimatorSetProxy& e, const World& w) const {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
   while (p.IsAlive()) {
diff --git a/src/TransportMethod.hpp b/src/TransportMethod.hpp
index d002a02..9305419 100644
--- a/src/TransportMethod.hpp
+++ b/src/TransportMethod.hpp
@@ -39,8 +39,9 @@ public:
   /// @param e Lightweight proxy to cache scores, owned by a single thread
   /// @param w World the Particle transports within
   /// @returns Any secondaries produced in the course of transporting p
+  /// @exception std::runtime_error p is at a point which is not in any Cell
   virtual Bank Transport(
-      Particle& p, EstimatorSetProxy& e, const World& w) const noexcept = 0;
+      Particle& p, EstimatorSetProxy& e, const World& w) const = 0;
   /// @brief Returns the probability density of colliding per unit distance per
   ///        unit number density
   virtual MicroscopicCrossSection
@@ -53,7 +54,7 @@ class SurfaceTracking : public TransportMethod {
 public:
   /// @brief Implements delta tracking
   Bank Transport(Particle& p, EstimatorSetProxy& e, const World& w)
-      const noexcept override;
+      const override;
   /// @brief Returns the probability density of a true collision
   MicroscopicCrossSection
   GetCollisionProbabilityDensity(const Particle& p) const noexcept override;
@@ -65,7 +66,7 @@ class CellDeltaTracking : public TransportMethod {
 public:
   /// @brief Implements cell delta tracking
   Bank Transport(Particle& p, EstimatorSetProxy& e, const World& w)
-      const noexcept override;
+      const override;
   /// @brief Returns the probability density of a true or virtual collision
   MicroscopicCrossSection
   GetCollisionProbabilityDensity(const Particle& p) const noexcept override;
-- 
2.43.0


From 2cc836821a3184867d5bbdf166938e1c9d54d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 22/33] fix: refuse a source of an undeclared particle type or
 group

---
 src/Source.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index 6bb1d47..aec43ef 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -8,6 +8,8 @@
 #include <cmath>
 #include <iosfwd>
 #include <random>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 #include <variant>
@@ -62,8 +64,17 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
       const std::string energy_value =
           distribution_node.attribute("energy").as_string();
       if (energy_type == "multigroup") {
-        return std::make_unique<ConstantDistribution<T>>(
-            Group{std::stoull(energy_value)});
+        const Group group{std::stoull(energy_value)};
+        if (group < 1 || group > property_node.root()
+                                     .child("minimc")
+                                     .child("nuclides")
+                                     .child("multigroup")
+                                     .attribute("groups")
+                                     .as_ullong()) {
+          throw std::runtime_error(
+              distribution_node.path() + ": group does not exist");
+        }
+        return std::make_unique<ConstantDistribution<T>>(group);
       }
       else if (energy_type == "continuous") {
         return std::make_unique<ConstantDistribution<T>>(
@@ -76,9 +87,23 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
   }
   else if constexpr (std::is_same_v<T, Particle::Type>) {
     if (distribution_name == "constant") {
-      const auto particle_type =
-          Particle::ToType(distribution_node.attribute("type").as_string());
-      return std::make_unique<ConstantDistribution<T>>(particle_type);
+      const std::string type = distribution_node.attribute("type").as_string();
+      // only particles with nuclear data can be transported
+      std::stringstream declared_types{property_node.root()
+                                           .child("minimc")
+                                           .child("general")
+                                           .child("particles")
+                                           .child_value()};
+      std::string declared_type;
+      while (declared_types >> declared_type) {
+        if (type == declared_type) {
+          return std::make_unique<ConstantDistribution<T>>(
+              Particle::ToType(type));
+        }
+      }
+      throw std::runtime_error(
+          distribution_node.path() + ": particle \"" + type +
+          "\" is not declared");
     }
   }
   else {
-- 
2.43.0


From 1295c3ee9f7ff0d9c2207e1aa4f7add54091ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 23/33] fix: refuse a source position outside of all cells or
 in a void cell

---
 src/FixedSource.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index 41467cd..3d391bd 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -1,5 +1,6 @@
 #include "FixedSource.hpp"
 
+#include "Cell.hpp"
 #include "Monitor.hpp"
 #include "Particle.hpp"
 #include "TransportMethod.hpp"
@@ -10,6 +11,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -18,7 +20,12 @@
 //// public
 
 FixedSource::FixedSource(const pugi::xml_node& root)
-    : Driver{root}, source{root.child("problemtype").child("fixedsource")} {};
+    : Driver{root}, source{root.child("problemtype").child("fixedsource")} {
+  // nothing can be sampled or tracked in a void Cell
+  if (!world.FindCellContaining(source.Sample(seed).GetPosition()).material) {
+    throw std::runtime_error("Source position is in a void cell");
+  }
+};
 
 EstimatorSet FixedSource::Solve() {
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
-- 
2.43.0


From b99e4188f516054a880c878d54fd76d064c8d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:26 +0000
Subject: [PATCH 24/33] fix: refuse equally spaced bins which do not increase

---
 src/Bins.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 9aed950..34e788e 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -13,6 +13,16 @@
 #include <utility>
 #include <variant>
 
+namespace {
+
+// Returns true if equally spaced boundaries can be told apart
+bool AreIncreasing(
+    const Real lower, const Real upper, const Real width) noexcept {
+  return lower + width > lower && upper - width < upper;
+}
+
+} // namespace
+
 // Bins
 
 //// public
@@ -65,7 +75,11 @@ LinspaceBins::LinspaceBins(const pugi::xml_node& linspace_node)
         }
         return upper_bound;
       }()},
-      bin_width{(upper_bound - lower_bound) / (n_bins - 2)} {}
+      bin_width{(upper_bound - lower_bound) / (n_bins - 2)} {
+  if (!AreIncreasing(lower_bound, upper_bound, bin_width)) {
+    throw std::runtime_error(linspace_node.path() + ": too many bins");
+  }
+}
 
 size_t LinspaceBins::size() const noexcept { return n_bins; }
 
@@ -113,7 +127,16 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
         }
         return log_upper_bound;
       }()},
-      log_bin_width{(log_upper_bound - log_lower_bound) / (n_bins - 2)} {}
+      log_bin_width{(log_upper_bound - log_lower_bound) / (n_bins - 2)} {
+  if (!AreIncreasing(log_lower_bound, log_upper_bound, log_bin_width)) {
+    throw std::runtime_error(logspace_node.path() + ": too many bins");
+  }
+  if (!(std::pow(base, log_lower_bound) > 0 &&
+        std::isfinite(std::pow(base, log_upper_bound)))) {
+    throw std::runtime_error(
+        logspace_node.path() + ": boundaries must be positive and finite");
+  }
+}
 
 size_t LogspaceBins::size() const noexcept { return n_bins; }
 
-- 
2.43.0


From e4676f7a285658b4c52d90fddc3b859ed8ad9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:34 +0000
Subject: [PATCH 25/33] fix: refuse a direction which can not be normalized

---
 src/Bins.cpp   | 21 +++++++++++++--------
 src/Point.cpp  |  8 +++++++-
 src/Point.hpp  |  2 +-
 src/Source.cpp |  2 +-
 src/Source.hpp |  2 +-
 5 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 34e788e..54b5066 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -214,15 +214,20 @@ std::string BoundaryBins::to_string() const noexcept {
 
 ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
-      direction{[&bins_node]() noexcept {
+      direction{[&bins_node]() {
         const auto& cosine_node = bins_node.child("cosine");
-        return cosine_node
-                   ? std::optional<Direction>(
-                         std::in_place,
-                         cosine_node.attribute("u").as_double(),
-                         cosine_node.attribute("v").as_double(),
-                         cosine_node.attribute("w").as_double())
-                   : std::nullopt;
+        auto result = cosine_node
+                          ? std::optional<Direction>(
+                                std::in_place,
+                                cosine_node.attribute("u").as_double(),
+                                cosine_node.attribute("v").as_double(),
+                                cosine_node.attribute("w").as_double())
+                          : std::nullopt;
+        // zero, infinite, or NaN components
+        if (result && !(result->Dot(*result) > 0.5)) {
+          throw std::runtime_error(cosine_node.path() + ": not a direction");
+        }
+        return result;
       }()},
       cosine{Bins::Create(bins_node.child("cosine").first_child())},
       energy{Bins::Create(bins_node.child("energy").first_child())},
diff --git a/src/Point.cpp b/src/Point.cpp
index 98ebece..4e9d920 100644
--- a/src/Point.cpp
+++ b/src/Point.cpp
@@ -5,6 +5,8 @@
 
 #include <cmath>
 #include <random>
+#include <stdexcept>
+#include <string>
 #include <type_traits>
 
 // Point
@@ -77,9 +79,13 @@ bool Point::operator==(const Point& rhs) const noexcept {
 
 //// public
 
-Direction::Direction(const pugi::xml_node& pointtype_node) noexcept
+Direction::Direction(const pugi::xml_node& pointtype_node)
     : Point{pointtype_node} {
   Normalize();
+  // zero, infinite, or NaN components
+  if (!(Dot(*this) > 0.5)) {
+    throw std::runtime_error(pointtype_node.path() + ": not a direction");
+  }
 }
 
 Direction::Direction(const Real& x, const Real& y, const Real& z) noexcept
diff --git a/src/Point.hpp b/src/Point.hpp
index 080a32a..4d4a873 100644
--- a/src/Point.hpp
+++ b/src/Point.hpp
@@ -59,7 +59,7 @@ class Direction : public Point {
 public:
   /// @brief Constructs a Direction from a `PointType` node
   /// @details `PointType` is a `complexType` defined in the minimc XML schema.
-  Direction(const pugi::xml_node& pointtype_node) noexcept;
+  Direction(const pugi::xml_node& pointtype_node);
   /// @brief Constructs a Direction with the given components
   Direction(const Real& x, const Real& y, const Real& z) noexcept;
   /// @brief Constructs an isotropically sampled Direction
diff --git a/src/Source.cpp b/src/Source.cpp
index aec43ef..17bf323 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -143,7 +143,7 @@ Direction IsotropicDistribution::Sample(RNG& rng) const noexcept {
 
 //// public
 
-IsotropicFlux::IsotropicFlux(const pugi::xml_node& isotropic_flux_node) noexcept
+IsotropicFlux::IsotropicFlux(const pugi::xml_node& isotropic_flux_node)
     : reference{isotropic_flux_node} {}
 
 Direction IsotropicFlux::Sample(RNG& rng) const noexcept {
diff --git a/src/Source.hpp b/src/Source.hpp
index fecab33..38b881e 100644
--- a/src/Source.hpp
+++ b/src/Source.hpp
@@ -53,7 +53,7 @@ class IsotropicDistribution : public Distribution<Direction>{
 class IsotropicFlux : public Distribution<Direction> {
 public:
   /// @brief Constructs the distribution with a reference Direction
-  IsotropicFlux(const pugi::xml_node& isotropic_flux_node) noexcept;
+  IsotropicFlux(const pugi::xml_node& isotropic_flux_node);
   /// @brief Returns an isotropic flux
   Direction Sample(RNG& rng) const noexcept override;
 
-- 
2.43.0


From 68edae0905981bd1a8bd7700253b20ad91db2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:11 +0000
Subject: [PATCH 26/33] fix: fail if the output file can not be written

---
 src/minimc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/minimc.cpp b/src/minimc.cpp
index 763f8f8..da9778d 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -19,10 +19,16 @@ int main(int argc, char* argv[]) try {
   auto driver = Driver::Create(input_filepath);
   auto output_filepath = input_filepath;
   std::ofstream output_file {output_filepath.replace_extension(".out")};
+  if (!output_file) {
+    throw std::runtime_error("Cannot open " + output_filepath.string());
+  }
   const auto& result = driver->Solve();
   output_file << driver->batchsize << std::endl;
   output_file << result.to_string();
   output_file.close();
+  if (!output_file) {
+    throw std::runtime_error("Cannot write " + output_filepath.string());
+  }
   std::cout << "Output written to "
             << std::filesystem::absolute(output_filepath) << std::endl;
   return 0;
-- 
2.43.0


From b31fcfa4a6d2dd0ca455c94630ef808c0e36babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 27/33] fix: keep the probability of a real collision within
 one

---
 src/TransportMethod.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index d478e62..b3360be 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -12,6 +12,7 @@
 #include "World.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <iosfwd>
 #include <map>
@@ -134,9 +135,11 @@ Bank CellDeltaTracking::Transport(
       // temperature may vary along the flight, so evaluate cross sections at
       // the site of the tentative collision
       p.Stream(distance_to_collision);
-      if (std::bernoulli_distribution{
+      // (the ratio may exceed one by roundoff)
+      if (std::bernoulli_distribution{std::min(
               p.GetCell().material->GetMicroscopicTotal(p) /
-              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+                  p.GetCell().material->GetMicroscopicMajorant(p),
+              1.)}(p.rng)) {
         // a real collision occurs
         const auto& nuclide = p.SampleNuclide();
         nuclide.Interact(p);
-- 
2.43.0


From be177255838666e11e150c3739b51ef57ff4037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 28/33] fix: resample thermal scattering energy transfers until
 one is possible

---
 src/Constants.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Constants.hpp b/src/Constants.hpp
index 93a7ada..006be8c 100644
--- a/src/Constants.hpp
+++ b/src/Constants.hpp
@@ -29,7 +29,7 @@ constexpr Real neutron_mass = 1.045354912280858e-18;
 constexpr Real relative_temperature_difference_tolerance = 0.01;
 /// @brief Number of times to resample thermal scattering beta when an
 ///        unphysical value is encountered
-constexpr size_t beta_resample_limit = 10;
+constexpr size_t beta_resample_limit = 1000;
 /// @brief Number of times to resample thermal scattering alpha when an
 ///        unphysical value is encountered
 constexpr size_t alpha_resample_limit = 10;
-- 
2.43.0


From 9a1c1d848f2418ed68d1c69d6deb8bead37d1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:07 +0000
Subject: [PATCH 29/33] fix: do not sample collisions in materials of zero
 cross section

---
 src/TransportMethod.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b3360be..312a680 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <cassert>
 #include <iosfwd>
+#include <limits>
 #include <map>
 #include <memory>
 #include <random>
@@ -40,6 +41,13 @@ Real GetDistanceAcross(
   return distance + constants::nudge;
 }
 
+// Samples the distance to the next collision. There is none in a Material
+// whose total cross section is zero.
+Real SampleDistance(const MacroscopicCrossSection rate, RNG& rng) {
+  return rate > 0 ? std::exponential_distribution{rate}(rng)
+                  : std::numeric_limits<Real>::infinity();
+}
+
 } // namespace
 
 // TransportMethod
@@ -80,9 +88,10 @@ Bank SurfaceTracking::Transport(
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
   while (p.IsAlive()) {
-    const auto distance_to_collision = std::exponential_distribution{
+    const auto distance_to_collision = SampleDistance(
         p.GetCell().material->number_density *
-        GetCollisionProbabilityDensity(p)}(p.rng);
+            GetCollisionProbabilityDensity(p),
+        p.rng);
     const auto [nearest_surface, distance_to_surface_crossing] =
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_collision < distance_to_surface_crossing) {
@@ -117,9 +126,10 @@ Bank CellDeltaTracking::Transport(
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
   while (p.IsAlive()) {
-    const auto distance_to_collision = std::exponential_distribution{
+    const auto distance_to_collision = SampleDistance(
         p.GetCell().material->number_density *
-        GetCollisionProbabilityDensity(p)}(p.rng);
+            GetCollisionProbabilityDensity(p),
+        p.rng);
     const auto [nearest_surface, distance_to_surface_crossing] =
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_surface_crossing < distance_to_collision) {
-- 
2.43.0


From 033fe951d68ef9d99b9137fc1b54e296e9570648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:42 +0000
Subject: [PATCH 30/33] fix: refuse thermal scattering data whose energies or
 betas do not increase

---
 src/ThermalScattering.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index dc3138d..f8e5709 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -37,7 +37,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         return result;
       }()},
       // IIFE
-      Es{[this]() noexcept {
+      Es{[this, &tsl_node]() {
         std::vector<ContinuousEnergy> result;
         for (const auto& partition : beta_partitions) {
           const auto& Es = partition.E_T_modes.GetAxis(0);
@@ -46,7 +46,10 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         // incident energies must be monotonically increasing
         ContinuousEnergy prev_E = 0;
         for (const auto& E : result) {
-          assert(prev_E < E);
+          if (!(prev_E < E)) {
+            throw std::runtime_error(
+                tsl_node.path() + ": incident energies must be increasing");
+          }
           prev_E = E;
         }
         return result;
@@ -70,7 +73,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         return result;
       }()},
       // IIFE
-      betas{[this]() noexcept {
+      betas{[this, &tsl_node]() {
         std::vector<ThermalScattering::Beta> result;
         for (const auto& partition : alpha_partitions) {
           const auto& betas = partition.beta_T_modes.GetAxis(0);
@@ -79,7 +82,10 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         // betas must be monotonically increasing
         ThermalScattering::Beta prev_beta = 0;
         for (const auto& beta : result) {
-          assert(prev_beta < beta);
+          if (!(prev_beta < beta)) {
+            throw std::runtime_error(
+                tsl_node.path() + ": betas must be increasing");
+          }
           prev_beta = beta;
         }
         return result;
-- 
2.43.0


From 520ca6364a9667294d0f8515f1058e69bd3bc20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:32 +0000
Subject: [PATCH 31/33] fix: read all text of an element

A comment, processing instruction or CDATA section within the text of an
element ended it: boundaries, group constants and numbers after it were
ignored.
---
 src/XMLDocument.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index 219ebc0..0f17206 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -71,6 +71,28 @@ public:
   }
 };
 
+// Gives each element all of its text in a single node, whatever comments,
+// processing instructions, or CDATA sections are found between the pieces
+void MergeText(pugi::xml_node element) {
+  std::string text;
+  bool has_child_elements{false};
+  for (auto child = element.first_child(); child;) {
+    const auto next = child.next_sibling();
+    if (child.type() == pugi::node_element) {
+      has_child_elements = true;
+      MergeText(child);
+    }
+    else {
+      text += child.value();
+      element.remove_child(child);
+    }
+    child = next;
+  }
+  if (!has_child_elements && !text.empty()) {
+    element.append_child(pugi::node_pcdata).set_value(text.c_str());
+  }
+}
+
 pugi::xml_document
 XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   // Xerces-C++ validation
@@ -84,8 +106,11 @@ XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   parser.parse(xml_filepath.string().c_str());
   // pugixml DOM construction
   pugi::xml_document doc{};
-  if (auto result = doc.load_file(xml_filepath.c_str()); !result) {
+  if (auto result = doc.load_file(
+          xml_filepath.c_str(), pugi::parse_default | pugi::parse_ws_pcdata);
+      !result) {
     throw std::runtime_error(result.description());
   }
+  MergeText(doc.document_element());
   return doc;
 }
-- 
2.43.0


From 7d2b8c0ef8846e845051c258e67b12a41fb10323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 32/33] fix: read a source's group as the number it is

The schema declares a decimal number: 1e1 was read as group 1, .1e1 refused
and 1.5 accepted.
---
 src/Source.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Source.cpp b/src/Source.cpp
index 17bf323..cee5e22 100644
--- a/src/Source.cpp
+++ b/src/Source.cpp
@@ -64,17 +64,20 @@ Distribution<T>::Create(const pugi::xml_node& property_node) {
       const std::string energy_value =
           distribution_node.attribute("energy").as_string();
       if (energy_type == "multigroup") {
-        const Group group{std::stoull(energy_value)};
-        if (group < 1 || group > property_node.root()
-                                     .child("minimc")
-                                     .child("nuclides")
-                                     .child("multigroup")
-                                     .attribute("groups")
-                                     .as_ullong()) {
+        // schema declares a decimal number, which may be written as 1e1 or 10.0
+        const auto group = std::stod(energy_value);
+        if (group < 1 || group != std::floor(group) ||
+            group > property_node.root()
+                        .child("minimc")
+                        .child("nuclides")
+                        .child("multigroup")
+                        .attribute("groups")
+                        .as_ullong()) {
           throw std::runtime_error(
               distribution_node.path() + ": group does not exist");
         }
-        return std::make_unique<ConstantDistribution<T>>(group);
+        return std::make_unique<ConstantDistribution<T>>(
+            static_cast<Group>(group));
       }
       else if (energy_type == "continuous") {
         return std::make_unique<ConstantDistribution<T>>(
-- 
2.43.0


From 7063c89ac06b428d7baeefdd9a3f899b1600b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:38 +0000
Subject: [PATCH 33/33] fix: read the input from the file of that name,
 whatever the name

---
 src/XMLDocument.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index 0f17206..fb6a5fc 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -1,8 +1,10 @@
 #include "XMLDocument.hpp"
 
+#include "xercesc/framework/LocalFileInputSource.hpp"
 #include "xercesc/parsers/XercesDOMParser.hpp"
 #include "xercesc/sax/ErrorHandler.hpp"
 #include "xercesc/sax/SAXParseException.hpp"
+#include "xercesc/util/Janitor.hpp"
 #include "xercesc/util/PlatformUtils.hpp"
 #include "xercesc/util/XMLString.hpp"
 
@@ -103,7 +105,11 @@ XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   parser.setDoSchema(true);
   parser.setDoNamespaces(true);
   parser.setErrorHandler(&error_handler);
-  parser.parse(xml_filepath.string().c_str());
+  // a path is not a URL, not even if it begins like one
+  const xercesc::ArrayJanitor<XMLCh> path{
+      xercesc::XMLString::transcode(xml_filepath.string().c_str()),
+      xercesc::XMLPlatformUtils::fgMemoryManager};
+  parser.parse(xercesc::LocalFileInputSource{path.get()});
   // pugixml DOM construction
   pugi::xml_document doc{};
   if (auto result = doc.load_file(
-- 
2.43.0

