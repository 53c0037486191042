From 1cae6610b8717eae58e9d524d696d0c20ea3a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:40 +0000
Subject: [PATCH 001/182] fix: publish the new pid only after the inherited
 particle-id counters are reset

After a fork, a second thread of the child could see the new pid while the
major/minor counters still held the parent's values, and hand out an id the
parent also hands out.
---
 projects/dataclasses/private/ParticleID.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/ParticleID.cxx b/projects/dataclasses/private/ParticleID.cxx
index 0f5c4b4..7adcddb 100644
--- a/projects/dataclasses/private/ParticleID.cxx
+++ b/projects/dataclasses/private/ParticleID.cxx
@@ -95,10 +95,11 @@ ParticleID ParticleID::GenerateID() {
                                                             //check whether another thread already updated this
         last_pid = global_last_pid_.load(std::memory_order_relaxed);
         if(this_pid != last_pid){
-            std::atomic_thread_fence(std::memory_order_release);
-            global_last_pid_.store(this_pid, std::memory_order_relaxed);
             global_major_id_.store(0, std::memory_order_relaxed); // this will cause a new major ID to be generated
             global_minor_id_.store(0, std::memory_order_relaxed); // reset the minor ID, too
+            std::atomic_thread_fence(std::memory_order_release);
+            // publish the pid last: a thread that sees it must not see the counters inherited from the parent process
+            global_last_pid_.store(this_pid, std::memory_order_relaxed);
         }
     }
 
-- 
2.43.0


From 31f5fe9f3b26bb20564cb6bd683d5dd9ad54716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:32 +0000
Subject: [PATCH 002/182] fix: point of closest approach derived from the
 initial position had the wrong sign

The initial distance is measured from the point of closest approach along the
direction, so the point lies at initial_position - distance * direction.
---
 projects/dataclasses/private/InteractionRecord.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index 42f820e..f14a08f 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -421,9 +421,9 @@ void PrimaryDistributionRecord::UpdatePointOfClosestApproach() const {
         return;
     if(initial_position_set and direction_set and initial_distance_from_closest_approach_set) {
         point_of_closest_approach = {
-            initial_position.at(0) + initial_distance_from_closest_approach * direction.at(0),
-            initial_position.at(1) + initial_distance_from_closest_approach * direction.at(1),
-            initial_position.at(2) + initial_distance_from_closest_approach * direction.at(2)};
+            initial_position.at(0) - initial_distance_from_closest_approach * direction.at(0),
+            initial_position.at(1) - initial_distance_from_closest_approach * direction.at(1),
+            initial_position.at(2) - initial_distance_from_closest_approach * direction.at(2)};
     } else if(interaction_vertex_set and direction_set and vertex_distance_from_closest_approach_set) {
         point_of_closest_approach = {
             interaction_vertex.at(0) - vertex_distance_from_closest_approach * direction.at(0),
-- 
2.43.0


From 0e7393866511cea4eff53eda3f2338196b0e93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:32 +0000
Subject: [PATCH 003/182] fix: do not derive distances from closest approach
 with an unset direction

---
 projects/dataclasses/private/InteractionRecord.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index f14a08f..b5a5269 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -513,7 +513,7 @@ void PrimaryDistributionRecord::UpdateVertexDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         vertex_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and initial_position_set and length_set) {
+    } else if(point_of_closest_approach_set and initial_position_set and length_set and direction_set) {
         double p_dot_d = (
             (initial_position.at(0) * direction.at(0)) +
             (initial_position.at(1) * direction.at(1)) +
@@ -603,7 +603,7 @@ void PrimaryDistributionRecord::UpdateInitialDistanceFromClosestApproach() const
         sign = (sign > 0) ? (1) : (-1);
         magnitude = std::sqrt(difference.at(0)*difference.at(0) + difference.at(1)*difference.at(1) + difference.at(2)*difference.at(2));
         initial_distance_from_closest_approach = magnitude * sign;
-    } else if(point_of_closest_approach_set and interaction_vertex_set and length_set) {
+    } else if(point_of_closest_approach_set and interaction_vertex_set and length_set and direction_set) {
         double p_dot_d = (
             (interaction_vertex.at(0) * direction.at(0)) +
             (interaction_vertex.at(1) * direction.at(1)) +
-- 
2.43.0


From 5304412169d2790dc45b5f1d6c302357ef4860ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:32 +0000
Subject: [PATCH 004/182] fix: finalizing a secondary whose length was never
 set used an indeterminate length

---
 projects/dataclasses/private/InteractionRecord.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dataclasses/private/InteractionRecord.cxx b/projects/dataclasses/private/InteractionRecord.cxx
index b5a5269..f4b2227 100644
--- a/projects/dataclasses/private/InteractionRecord.cxx
+++ b/projects/dataclasses/private/InteractionRecord.cxx
@@ -1196,6 +1196,7 @@ void SecondaryDistributionRecord::Finalize(InteractionRecord & record) const {
     record.primary_mass = mass;
     record.primary_momentum = momentum;
     record.primary_helicity = helicity;
+    double const & length = GetLength(); // throws if the length was never set
     record.interaction_vertex = initial_position;
     record.interaction_vertex.at(0) += length*direction.at(0);
     record.interaction_vertex.at(1) += length*direction.at(1);
-- 
2.43.0


From 8c080389902f09de44b1973cd365f0f0dc1a49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:22 +0000
Subject: [PATCH 005/182] fix: report a failed write when saving interaction
 trees

The stream was never flushed and checked, so a full disk produced a truncated
event file without any error.
---
 projects/dataclasses/private/InteractionTree.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/dataclasses/private/InteractionTree.cxx b/projects/dataclasses/private/InteractionTree.cxx
index 265c248..cb15e8b 100644
--- a/projects/dataclasses/private/InteractionTree.cxx
+++ b/projects/dataclasses/private/InteractionTree.cxx
@@ -138,6 +138,10 @@ void SaveInteractionTrees(std::vector<std::shared_ptr<InteractionTree>>& trees,
     std::ofstream os(filename+".siren_events", std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     archive(trees);
+    // Buffered data may only reach the file system here, so check that it did
+    os.close();
+    if(not os)
+        throw std::runtime_error("Failed to write all events to \"" + filename + ".siren_events\"!");
 }
 
 std::vector<std::shared_ptr<InteractionTree>> LoadInteractionTrees(std::string const & filename) {
-- 
2.43.0


From a937a741ad7cd11d2c083f3722e1800c9f4f3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 006/182] fix: NormalizationConstant compared equal to any
 distribution with the same normalization

---
 projects/distributions/private/Distributions.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/Distributions.cxx b/projects/distributions/private/Distributions.cxx
index 33f6336..df78ee8 100644
--- a/projects/distributions/private/Distributions.cxx
+++ b/projects/distributions/private/Distributions.cxx
@@ -76,13 +76,13 @@ std::string NormalizationConstant::Name() const {
 }
 
 bool NormalizationConstant::equal(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization==dist->GetNormalization();
 }
 
 bool NormalizationConstant::less(WeightableDistribution const & distribution) const {
-    const PhysicallyNormalizedDistribution* dist = dynamic_cast<const PhysicallyNormalizedDistribution*>(&distribution);
+    const NormalizationConstant* dist = dynamic_cast<const NormalizationConstant*>(&distribution);
     if(!dist) return false;
     return normalization<dist->GetNormalization();
 }
-- 
2.43.0


From a1d002cea246e0d5d44b69ec54309839f6591124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 007/182] fix: PrimaryMass ordering used equality

---
 projects/distributions/private/primary/mass/PrimaryMass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/mass/PrimaryMass.cxx b/projects/distributions/private/primary/mass/PrimaryMass.cxx
index da62235..32a508a 100644
--- a/projects/distributions/private/primary/mass/PrimaryMass.cxx
+++ b/projects/distributions/private/primary/mass/PrimaryMass.cxx
@@ -64,7 +64,7 @@ bool PrimaryMass::equal(WeightableDistribution const & other) const {
 
 bool PrimaryMass::less(WeightableDistribution const & other) const {
     const PrimaryMass* x = dynamic_cast<const PrimaryMass*>(&other);
-    return primary_mass == x->primary_mass;
+    return primary_mass < x->primary_mass;
 }
 
 } // namespace distributions
-- 
2.43.0


From d984dc125769e50c7df892734aa2ad69df02743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 008/182] fix: direction distributions ordered by their own
 direction only

---
 .../private/primary/direction/Cone.cxx             | 14 ++++++++++++--
 .../private/primary/direction/FixedDirection.cxx   |  6 +++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index 421da40..b2d16d9 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -3,6 +3,7 @@
 #include <array>                                           // for array
 #include <math.h>                                          // for acos, cos
 #include <string>                                          // for basic_string
+#include <tuple>                                           // for tie
 #include <stdlib.h>                                        // for abs
 
 #include "SIREN/dataclasses/InteractionRecord.h"  // for Interactio...
@@ -78,9 +79,18 @@ bool Cone::equal(WeightableDistribution const & other) const {
 bool Cone::less(WeightableDistribution const & other) const {
     const Cone* x = dynamic_cast<const Cone*>(&other);
     if(abs(1.0 - siren::math::scalar_product(dir, x->dir)) < 1e-9) {
-        return false;
-    } else {
         return opening_angle < x->opening_angle;
+    } else {
+        double X = dir.GetX();
+        double Y = dir.GetY();
+        double Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
+        return
+            std::tie(X, Y, Z)
+            <
+            std::tie(other_X, other_Y, other_Z);
     }
 }
 
diff --git a/projects/distributions/private/primary/direction/FixedDirection.cxx b/projects/distributions/private/primary/direction/FixedDirection.cxx
index fd23ec0..e809abe 100644
--- a/projects/distributions/private/primary/direction/FixedDirection.cxx
+++ b/projects/distributions/private/primary/direction/FixedDirection.cxx
@@ -61,9 +61,9 @@ bool FixedDirection::less(WeightableDistribution const & other) const {
         double X = dir.GetX();
         double Y = dir.GetY();
         double Z = dir.GetZ();
-        double other_X = dir.GetX();
-        double other_Y = dir.GetY();
-        double other_Z = dir.GetZ();
+        double other_X = x->dir.GetX();
+        double other_Y = x->dir.GetY();
+        double other_Z = x->dir.GetZ();
         return
             std::tie(X, Y, Z)
             <
-- 
2.43.0


From b4cafa0e943d9326a120b0b33c383fda9b64903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 009/182] fix: vertex distributions compared radius or origin
 with themselves when ordering

---
 .../primary/vertex/ColumnDepthPositionDistribution.cxx   | 2 +-
 .../primary/vertex/DecayRangePositionDistribution.cxx    | 2 +-
 .../primary/vertex/PointSourcePositionDistribution.cxx   | 2 +-
 .../private/primary/vertex/RangePositionDistribution.cxx | 9 ++++++---
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 2f57f80..5163545 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -228,7 +228,7 @@ bool ColumnDepthPositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(radius, endcap_length, f)
         <
-        std::tie(radius, x->endcap_length, depth_less);
+        std::tie(x->radius, x->endcap_length, depth_less);
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
index 2b28d0d..737f858 100644
--- a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
@@ -148,7 +148,7 @@ bool DecayRangePositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(radius, endcap_length, f)
         <
-        std::tie(radius, x->endcap_length, range_less);
+        std::tie(x->radius, x->endcap_length, range_less);
 }
 
 bool DecayRangePositionDistribution::AreEquivalent(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, std::shared_ptr<WeightableDistribution const> distribution, std::shared_ptr<siren::detector::DetectorModel const> second_detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> second_interactions) const {
diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index 4bcc31b..9bde125 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -185,7 +185,7 @@ bool PointSourcePositionDistribution::less(WeightableDistribution const & other)
     return
         std::tie(origin, max_distance)
         <
-        std::tie(origin, x->max_distance);
+        std::tie(x->origin, x->max_distance);
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index fb00b9b..c7d31cc 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -218,11 +218,14 @@ bool RangePositionDistribution::less(WeightableDistribution const & other) const
         (!range_function and x->range_function) // this->NULL and other->(not NULL)
         or (range_function and x->range_function // both not NULL
                 and *range_function < *x->range_function); // Less than
-    bool f = false;
+    bool range_greater =
+        (range_function and !x->range_function)
+        or (range_function and x->range_function
+                and *x->range_function < *range_function);
     return
-        std::tie(radius, endcap_length, f, target_types)
+        std::tie(radius, endcap_length, range_greater, target_types)
         <
-        std::tie(radius, x->endcap_length, range_less, x->target_types);
+        std::tie(x->radius, x->endcap_length, range_less, x->target_types);
 }
 
 } // namespace distributions
-- 
2.43.0


From a43b1d9d1d042650ab0bcf7776d52fd144bba489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 010/182] fix: bounded vertex distributions ignored fiducial
 volume and length when compared

---
 .../vertex/FixedTargetPositionDistribution.cxx | 17 ++++++++++++++---
 .../SecondaryBoundedVertexDistribution.cxx     | 18 ++++++++++++------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index e2ca3ea..c18aec9 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -270,13 +270,24 @@ bool FixedTargetPositionDistribution::equal(WeightableDistribution const & other
 
     if(!x)
         return false;
-    else
-        return (cylinder == x->cylinder);
+    bool same_fid = (!fiducial_volume && !x->fiducial_volume)
+        || (fiducial_volume && x->fiducial_volume && *fiducial_volume == *(x->fiducial_volume));
+    return cylinder == x->cylinder && max_length == x->max_length && same_fid;
 }
 
 bool FixedTargetPositionDistribution::less(WeightableDistribution const & other) const {
     const FixedTargetPositionDistribution* x = dynamic_cast<const FixedTargetPositionDistribution*>(&other);
-    return cylinder < x->cylinder;
+    if(!(cylinder == x->cylinder))
+        return cylinder < x->cylinder;
+    if(max_length != x->max_length)
+        return max_length < x->max_length;
+    bool has_fid = (fiducial_volume != nullptr);
+    bool other_has_fid = (x->fiducial_volume != nullptr);
+    if(has_fid != other_has_fid)
+        return has_fid < other_has_fid;
+    if(has_fid && other_has_fid)
+        return *fiducial_volume < *(x->fiducial_volume);
+    return false;
 }
 
 bool FixedTargetPositionDistribution::AreEquivalent(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, std::shared_ptr<WeightableDistribution const> distribution, std::shared_ptr<siren::detector::DetectorModel const> second_detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> second_interactions) const {
diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index c39fe4a..0427c8c 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -232,16 +232,22 @@ bool SecondaryBoundedVertexDistribution::equal(WeightableDistribution const & ot
 
     if(!x)
         return false;
-    else
-        return (max_length == x->max_length);
+    bool same_fid = (!fiducial_volume && !x->fiducial_volume)
+        || (fiducial_volume && x->fiducial_volume && *fiducial_volume == *(x->fiducial_volume));
+    return max_length == x->max_length && same_fid;
 }
 
 bool SecondaryBoundedVertexDistribution::less(WeightableDistribution const & other) const {
     const SecondaryBoundedVertexDistribution* x = dynamic_cast<const SecondaryBoundedVertexDistribution*>(&other);
-    return
-        std::tie(max_length)
-        <
-        std::tie(x->max_length);
+    if(max_length != x->max_length)
+        return max_length < x->max_length;
+    bool has_fid = (fiducial_volume != nullptr);
+    bool other_has_fid = (x->fiducial_volume != nullptr);
+    if(has_fid != other_has_fid)
+        return has_fid < other_has_fid;
+    if(has_fid && other_has_fid)
+        return *fiducial_volume < *(x->fiducial_volume);
+    return false;
 }
 
 } // namespace distributions
-- 
2.43.0


From 07af2ef1cfeaf88e178a29f6a2b714e31ecf73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:44 +0000
Subject: [PATCH 011/182] fix: depth and range functions of different classes
 were ordered as the same class

---
 .../distributions/private/primary/vertex/DepthFunction.cxx    | 4 ++--
 .../distributions/private/primary/vertex/RangeFunction.cxx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DepthFunction.cxx b/projects/distributions/private/primary/vertex/DepthFunction.cxx
index 74d88a1..3720ab9 100644
--- a/projects/distributions/private/primary/vertex/DepthFunction.cxx
+++ b/projects/distributions/private/primary/vertex/DepthFunction.cxx
@@ -25,10 +25,10 @@ bool DepthFunction::operator==(DepthFunction const & distribution) const {
 }
 
 bool DepthFunction::operator<(DepthFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
diff --git a/projects/distributions/private/primary/vertex/RangeFunction.cxx b/projects/distributions/private/primary/vertex/RangeFunction.cxx
index 737be7d..6c25241 100644
--- a/projects/distributions/private/primary/vertex/RangeFunction.cxx
+++ b/projects/distributions/private/primary/vertex/RangeFunction.cxx
@@ -24,10 +24,10 @@ bool RangeFunction::operator==(RangeFunction const & distribution) const {
 }
 
 bool RangeFunction::operator<(RangeFunction const & distribution) const {
-    if(typeid(this) == typeid(&distribution))
+    if(typeid(*this) == typeid(distribution))
         return this->less(distribution);
     else
-        return std::type_index(typeid(this)) < std::type_index(typeid(&distribution));
+        return std::type_index(typeid(*this)) < std::type_index(typeid(distribution));
 }
 
 } // namespace distributions
-- 
2.43.0


From 3513cb614d3f83b2eb41f4dcfb314f05bcf086be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:04 +0000
Subject: [PATCH 012/182] fix: setting a process's distributions missed
 duplicates held in different objects

---
 projects/injection/private/Process.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/injection/private/Process.cxx b/projects/injection/private/Process.cxx
index 0543f7a..c375e25 100644
--- a/projects/injection/private/Process.cxx
+++ b/projects/injection/private/Process.cxx
@@ -96,7 +96,7 @@ std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & Phys
 void PhysicalProcess::SetPhysicalDistributions(std::vector<std::shared_ptr<distributions::WeightableDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::WeightableDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate WeightableDistributions");
         }
     }
@@ -136,7 +136,7 @@ void PrimaryInjectionProcess::AddPrimaryInjectionDistribution(std::shared_ptr<di
 void PrimaryInjectionProcess::SetPrimaryInjectionDistributions(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::PrimaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate PrimaryInjectionDistributions");
         }
     }
@@ -195,7 +195,7 @@ void SecondaryInjectionProcess::AddSecondaryInjectionDistribution(std::shared_pt
 void SecondaryInjectionProcess::SetSecondaryInjectionDistributions(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>> const & distributions) {
     for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_1 = distributions.begin(); it_1 != distributions.end(); ++it_1) {
         for(std::vector<std::shared_ptr<distributions::SecondaryInjectionDistribution>>::const_iterator it_2 = it_1 + 1; it_2 != distributions.end(); ++it_2) {
-            if((*it_1) == (*it_2))
+            if((**it_1) == (**it_2))
                 throw std::runtime_error("Cannot add duplicate SecondaryInjectionDistributions");
         }
     }
-- 
2.43.0


From fbce08773f71e06d715278b79d3bab767e97258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:38 +0000
Subject: [PATCH 013/182] fix: irregular table lookup at or below the first
 node used the last cell

---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 2165732..818b822 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -124,10 +124,10 @@ struct IndexFinderIrregular {
         // begin is the first element
         // distance(begin, pointer to y) --> y
         // therefore this function returns the index of the lower bin edge
-        unsigned int index = std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x)) - 1;
+        int index = int(std::distance(data.begin(), std::lower_bound(data.begin(), data.end(), x))) - 1;
         if(index < 0)
             index = 0;
-        else if(index >= n_points - 1)
+        else if(index >= int(n_points) - 1)
             index = n_points - 2;
         return std::tuple<unsigned int, T, T, T>(index,
                 x,
-- 
2.43.0


From 76fe336f367e7b5a7db0976e858bfefab7ea69c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:58 +0000
Subject: [PATCH 014/182] fix: zero mask of log tables was out of bounds, lost
 on copy and in row order

---
 projects/utilities/public/SIREN/utilities/Interpolator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index 818b822..c0c70c6 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -397,8 +397,10 @@ public:
 
         std::vector<T> function_values(table.f.begin(), table.f.end());
         if(is_log) {
-            zero_mask.reserve(function_values.size());
-            std::transform(function_values.begin(), function_values.end(), zero_mask.begin(), [](T t)->T{return t<=0;});
+            zero_mask.resize(function_values.size());
+            for(unsigned int i=0; i<table.x.size(); ++i) {
+                zero_mask[xmap[table.x[i]]] = function_values[i] <= 0;
+            }
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
         }
 
@@ -556,7 +558,7 @@ public:
         std::vector<T> function_values(table.f.begin(), table.f.end());
         std::vector<bool> z_mask;
         if(is_log) {
-            z_mask.reserve(function_values.size());
+            z_mask.resize(function_values.size());
             std::transform(function_values.begin(), function_values.end(), z_mask.begin(), [](T t)->T{return t<=0;});
             std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{if(t > 0){return log(t);} else {return t;}});
             //std::transform(function_values.begin(), function_values.end(), function_values.begin(), [](T t)->T{return log(t);});
-- 
2.43.0


From c310efc89addd834e4df7f8d1db0199093ef8864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:18 +0000
Subject: [PATCH 015/182] fix: log tables did not reproduce their values next
 to zero entries

---
 .../public/SIREN/utilities/Interpolator.h     | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/projects/utilities/public/SIREN/utilities/Interpolator.h b/projects/utilities/public/SIREN/utilities/Interpolator.h
index c0c70c6..653b60d 100644
--- a/projects/utilities/public/SIREN/utilities/Interpolator.h
+++ b/projects/utilities/public/SIREN/utilities/Interpolator.h
@@ -430,18 +430,15 @@ public:
         T fb = function.at(index+1);
         T result;
         if(is_log) {
-            if(zero_mask[index]) {
-                if(zero_mask[index+1]) {
-                    result = fa + (fb - fa) * exp(val - xa - delta);
-                } else {
-                    result = fa + (exp(fb) - fa) * exp(val - xa - delta);
-                }
+            if(zero_mask[index] or zero_mask[index+1]) {
+                // the logarithm does not exist at one of the nodes: interpolate linearly
+                if(not zero_mask[index])
+                    fa = exp(fa);
+                if(not zero_mask[index+1])
+                    fb = exp(fb);
+                result = fa + (fb - fa) * std::expm1(val - xa) / std::expm1(delta);
             } else {
-                if(zero_mask[index+1]) {
-                    result = exp(fa) + (fb - exp(fa)) * exp(val - xa - delta);
-                } else {
-                    result = exp(fa + (fb - fa) * (val - xa) / delta);
-                }
+                result = exp(fa + (fb - fa) * (val - xa) / delta);
             }
         } else {
             result = fa + (fb - fa) * (val - xa) / delta;
@@ -632,14 +629,14 @@ public:
             bool has_zero = zaa or zab or zba or zbb;
             if(has_zero) {
                 if(indexer_x.IsLog()) {
-                    da_x = exp(da_x);
-                    db_x = exp(db_x);
-                    delta_x = exp(delta_x);
+                    da_x = std::expm1(da_x);
+                    delta_x = std::expm1(delta_x);
+                    db_x = delta_x - da_x;
                 }
                 if(indexer_y.IsLog()) {
-                    da_y = exp(da_y);
-                    db_y = exp(db_y);
-                    delta_y = exp(delta_y);
+                    da_y = std::expm1(da_y);
+                    delta_y = std::expm1(delta_y);
+                    db_y = delta_y - da_y;
                 }
                 if(!zaa)
                     faa = exp(faa);
-- 
2.43.0


From debea06d3a4b938be6928fead46f6ef2cd02440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 016/182] fix: SIREN_random::PowerLaw drew its uniform variate
 from [min, max] instead of [0, 1]

---
 projects/utilities/private/Random.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/utilities/private/Random.cxx b/projects/utilities/private/Random.cxx
index 0d268a4..fde8e57 100644
--- a/projects/utilities/private/Random.cxx
+++ b/projects/utilities/private/Random.cxx
@@ -39,8 +39,7 @@ namespace utilities {
     double SIREN_random::PowerLaw(double min, double max, double n) {
         if(max < min)
             std::swap(min, max);
-        double range = max - min;
-        double unif = range * (this->generator(configuration)) + min;
+        double unif = this->generator(configuration);
         
         double base = (pow(max,n+1) - pow(min,n+1)) * unif + pow(min,n+1) ; 
         double exp = 1/(n+1) ; 
-- 
2.43.0


From 14c89156b61bb3e616e34ed7a56236ff6882d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 017/182] fix: PowerLaw reported a non-zero generation
 probability outside its energy range

---
 .../distributions/private/primary/energy/PowerLaw.cxx  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/energy/PowerLaw.cxx b/projects/distributions/private/primary/energy/PowerLaw.cxx
index 923dbb9..e358103 100644
--- a/projects/distributions/private/primary/energy/PowerLaw.cxx
+++ b/projects/distributions/private/primary/energy/PowerLaw.cxx
@@ -1,6 +1,7 @@
 #include "SIREN/distributions/primary/energy/PowerLaw.h"
 
 #include <array>                                           // for array
+#include <algorithm>                                       // for min, max
 #include <tuple>                                           // for tie, opera...
 #include <math.h>                                          // for pow, log10
 #include <string>                                          // for basic_string
@@ -29,11 +30,11 @@ double PowerLaw::SampleEnergy(std::shared_ptr<siren::utilities::SIREN_random> ra
         return energyMin; //return the only allowed energy
 
     if(powerLawIndex == 1.0) //sample uniformly in log space
-        return pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax)));
+        return std::min(std::max(pow(10.0, rand->Uniform(log10(energyMin), log10(energyMax))), energyMin), energyMax);
     else {
         double u = rand->Uniform();
         double energyP = (1 - u) * pow(energyMin, 1 - powerLawIndex) + u * pow(energyMax, 1 - powerLawIndex);
-        return pow(energyP, 1 / (1 - powerLawIndex));
+        return std::min(std::max(pow(energyP, 1 / (1 - powerLawIndex)), energyMin), energyMax);
     }
 }
 
@@ -49,7 +50,10 @@ double PowerLaw::pdf(double energy) const {
 }
 
 double PowerLaw::GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const {
-    return pdf(record.primary_momentum[0]);
+    double const & energy = record.primary_momentum[0];
+    if(energy < energyMin or energy > energyMax)
+        return 0.0;
+    return pdf(energy);
 }
 
 std::string PowerLaw::Name() const {
-- 
2.43.0


From 2cba64eabd7c9254511f4546ab21b35bec6bf08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:02 +0000
Subject: [PATCH 018/182] fix: TabulatedFluxDistribution::GetCDFEnergyNodes was
 always empty

---
 .../private/primary/energy/TabulatedFluxDistribution.cxx   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
index cfae9cc..711723c 100644
--- a/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy/TabulatedFluxDistribution.cxx
@@ -136,12 +136,9 @@ void TabulatedFluxDistribution::ComputeCDF() {
     );
     energies.push_back(energyMax);
 
-    // assign the energies vector so it's accessible outside of the function
-    //cdf_energy_nodes = energies;
-
-    // declare the cdf vectors
+    // declare the cdf vector and start over with its energy nodes
     std::vector<double> cdf_vector;
-    std::vector<double> cdf_energy_nodes;
+    cdf_energy_nodes.clear();
 
     cdf_vector.push_back(0); // start the CDF at zero
     cdf_energy_nodes.push_back(energies[0]);
-- 
2.43.0


From 595ab21efcf39498e8a686c54d5e06641872f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 019/182] fix: Cone was built from the unnormalized direction,
 and failed for -z and for back-to-back events

---
 .../private/primary/direction/Cone.cxx              | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/projects/distributions/private/primary/direction/Cone.cxx b/projects/distributions/private/primary/direction/Cone.cxx
index b2d16d9..5544fd4 100644
--- a/projects/distributions/private/primary/direction/Cone.cxx
+++ b/projects/distributions/private/primary/direction/Cone.cxx
@@ -23,14 +23,15 @@ namespace distributions {
 //---------------
 Cone::Cone(siren::math::Vector3D dir, double opening_angle) : dir(dir), opening_angle(opening_angle) {
     this->dir.normalize();
-    if(this->dir == siren::math::Vector3D(0,0,1)) {
+    // use the normalized direction, and compare only its cartesian components
+    if(this->dir.GetZ() == 1.0) {
         rotation = siren::math::Quaternion(0,0,0,1);
-    } else if(this->dir == siren::math::Vector3D(0,0,-1)) {
+    } else if(this->dir.GetZ() == -1.0) {
         rotation = siren::math::Quaternion(0,1,0,0);
     } else {
-        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), dir);
+        siren::math::Vector3D r = cross_product(siren::math::Vector3D(0, 0, 1), this->dir);
         rotation = siren::math::Quaternion(r);
-        rotation.SetW(1.0 + dir.GetZ());
+        rotation.SetW(1.0 + this->dir.GetZ());
         rotation.normalize();
     }
 }
@@ -50,9 +51,11 @@ double Cone::GenerationProbability(std::shared_ptr<siren::detector::DetectorMode
     double theta;
     if(c > 1)
         theta = 0;
+    else if(c < -1)
+        theta = M_PI;
     else
         theta = acos(c);
-    if(theta < opening_angle)
+    if(theta <= opening_angle)
         return 1.0 / (2.0 * M_PI * (1.0 - cos(opening_angle)));
     else
         return 0.0;
-- 
2.43.0


From 3da8cb5cfefd8994fd83decc9b85636603843d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 020/182] fix: FixedDirection did not normalize its direction

---
 .../SIREN/distributions/primary/direction/FixedDirection.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
index 3ee4607..39fa3e5 100644
--- a/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
+++ b/projects/distributions/public/SIREN/distributions/primary/direction/FixedDirection.h
@@ -32,7 +32,7 @@ protected:
 private:
     siren::math::Vector3D dir;
 public:
-    FixedDirection(siren::math::Vector3D dir) : dir(dir) {};
+    FixedDirection(siren::math::Vector3D dir) : dir(dir) { this->dir.normalize(); };
 private:
     siren::math::Vector3D SampleDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const override;
     virtual double GenerationProbability(std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::InteractionRecord const & record) const override;
-- 
2.43.0


From 06ed2e26109cc72a7622d8571b4b183291baa4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 021/182] fix: Tabulated2DFluxDistribution did not sample the
 density it reports

---
 .../Tabulated2DFluxDistribution.cxx           | 38 +++++++------------
 .../Tabulated2DFluxDistribution.h             |  4 +-
 2 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
index ad58837..dab177e 100644
--- a/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
+++ b/projects/distributions/private/primary/energy_direction/Tabulated2DFluxDistribution.cxx
@@ -279,34 +279,24 @@ std::pair<double, double> Tabulated2DFluxDistribution::SampleTablePoint(std::sha
 
 std::pair<double,siren::math::Vector3D> Tabulated2DFluxDistribution::SampleEnergyAndDirection(std::shared_ptr<siren::utilities::SIREN_random> rand, std::shared_ptr<siren::detector::DetectorModel const> detector_model, std::shared_ptr<siren::interactions::InteractionCollection const> interactions, siren::dataclasses::PrimaryDistributionRecord & record) const {
 
-    double energy, cosZenith, test_density;
-    std::pair<double,double> energy_cosZenith;
-
-    // Metropolis-Hastings burn-in
-    while (MH_sampled_points <= burnin) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
+    // Metropolis-Hastings: one step per sample once the burn-in is complete.
+    // When a proposal is rejected the chain stays at (and returns) its current point.
+    do {
+        std::pair<double, double> energy_cosZenith = SampleTablePoint(rand);
+        // points of log tables are proposed uniformly in log(energy), so the target is the density in log(energy)
+        double test_density = pdf(energy_cosZenith.first, energy_cosZenith.second);
+        if(fluxTable.IsLogX())
+            test_density *= energy_cosZenith.first;
         bool accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
         if(accept) {
             MH_density = test_density;
-            MH_sampled_points++;
+            MH_energy = energy_cosZenith.first;
+            MH_cosZenith = energy_cosZenith.second;
         }
-    }
-    // Sample one point after burn-in
-    bool accept = false;
-    while(!accept) {
-        energy_cosZenith = SampleTablePoint(rand);
-        energy = energy_cosZenith.first;
-        cosZenith = energy_cosZenith.second;
-        test_density = pdf(energy, cosZenith);
-        accept = (MH_density <= 0) || (test_density >= MH_density) || (rand->Uniform() < test_density / MH_density);
-        if(accept) {
-            MH_density = test_density;
-            MH_sampled_points++;
-        }
-    }
+        MH_sampled_points++;
+    } while(MH_sampled_points <= burnin + 1 || MH_density <= 0);
+    double energy = MH_energy;
+    double cosZenith = MH_cosZenith;
     // Convert cos(zenith) to a 3D direction vector
     double sin_theta = sqrt(1.0 - cosZenith * cosZenith);
     double phi = rand->Uniform(-M_PI, M_PI);
diff --git a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
index ce422cb..7b2f01c 100644
--- a/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
+++ b/projects/distributions/public/SIREN/distributions/primary/energy_direction/Tabulated2DFluxDistribution.h
@@ -51,7 +51,9 @@ private:
     // NOT thread-safe: each thread must use its own distribution instance.
     const size_t burnin = 40;
     mutable size_t MH_sampled_points = 0;
-    mutable double MH_density = 0;
+    mutable double MH_density = 0; // target density at the current point of the chain
+    mutable double MH_energy = 0;
+    mutable double MH_cosZenith = 0;
 
     double unnormed_pdf(double energy, double cosZenith) const;
     double pdf(double energy, double cosZenith) const;
-- 
2.43.0


From a1578f86cff88a5a2d27a7dcf97e83ef99c09931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:34 +0000
Subject: [PATCH 022/182] fix: Polynom::shift released its work arrays with the
 wrong operator and leaked one

---
 projects/math/private/Polynomial.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/math/private/Polynomial.cxx b/projects/math/private/Polynomial.cxx
index fb658b3..beb78d1 100644
--- a/projects/math/private/Polynomial.cxx
+++ b/projects/math/private/Polynomial.cxx
@@ -75,7 +75,8 @@ void Polynom::shift(double x) {
         }
 
         for (int count = 0; count < N_; ++count)
-            delete t[count];
+            delete[] t[count];
+        delete[] t;
     }
 }
 
-- 
2.43.0


From 47b5648b680009b44e4b9020859855760469a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 023/182] fix: the Cartesian density headers shared one include
 guard, so only the first one took effect

---
 .../detector/CartesianAxisExponentialDensityDistribution.h   | 5 +++--
 .../detector/CartesianAxisPolynomialDensityDistribution.h    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
index b2fe4d8..4337170 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisExponentialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisExponentialDensityDistribution_H
+#define SIREN_CartesianAxisExponentialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -11,6 +11,7 @@
 #include "SIREN/detector/CartesianAxis1D.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/ExponentialDistribution1D.h"
 
 namespace siren {
diff --git a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
index 4a2594d..b42b8e7 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisPolynomialDensityDistribution.h
@@ -1,6 +1,6 @@
 #pragma once
-#ifndef SIREN_CartesianAxisDensityDistribution_H
-#define SIREN_CartesianAxisDensityDistribution_H
+#ifndef SIREN_CartesianAxisPolynomialDensityDistribution_H
+#define SIREN_CartesianAxisPolynomialDensityDistribution_H
 #include <cereal/cereal.hpp>
 #include <cereal/archives/json.hpp>
 #include <cereal/archives/binary.hpp>
@@ -11,6 +11,7 @@
 #include "SIREN/detector/CartesianAxis1D.h"
 #include "SIREN/detector/DensityDistribution.h"
 #include "SIREN/detector/DensityDistribution1D.h"
+#include "SIREN/detector/CartesianAxisDensityDistribution.h"
 #include "SIREN/detector/PolynomialDistribution1D.h"
 
 namespace siren {
-- 
2.43.0


From 8e449a544437e35ccaab106ff6202cd5174e36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:31 +0000
Subject: [PATCH 024/182] fix: Cartesian density integrals failed across the
 axis, and the inverse integral with a constant ignored the start

---
 .../CartesianAxisDensityDistribution.h        | 59 ++++++-------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
index 13b697e..d5106da 100644
--- a/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
+++ b/projects/detector/public/SIREN/detector/CartesianAxisDensityDistribution.h
@@ -1,6 +1,7 @@
 #pragma once
 #ifndef SIREN_CartesianAxisDensityDistribution_H
 #define SIREN_CartesianAxisDensityDistribution_H
+#include <cmath>
 #include <memory>
 #include <string>
 #include <exception>
@@ -30,6 +31,8 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
    private:
     AxisT axis;
     DistributionT dist;
+    // below this rate of change of the axis coordinate a direction counts as perpendicular to the axis
+    static constexpr double perpendicular = 1e-6;
    public:
     DensityDistribution1D() : axis(), dist() {};
     DensityDistribution1D(const AxisT& axis, const DistributionT& dist)
@@ -58,57 +61,37 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
 
     double AntiDerivative(const math::Vector3D& xi,
                           const math::Vector3D& direction) const override {
-        double a = 0;
         double b = axis.GetX(xi);
         double dxdt = axis.GetdX(xi, direction);
-        return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
+        if(std::abs(dxdt) < perpendicular) // the density does not change along this direction
+            return (xi*direction) * dist.Evaluate(b);
+        return (dist.AntiDerivative(b) - dist.AntiDerivative(0)) / dxdt;
     };
 
     double Integral(const math::Vector3D& xi,
                     const math::Vector3D& direction,
                     double distance) const override {
         double a = axis.GetX(xi);
-        math::Vector3D xj = xi + direction*distance;
-        double b = axis.GetX(xj);
         double dxdt = axis.GetdX(xi, direction);
+        double b = a + dxdt*distance;
+        if(std::abs(dxdt) < perpendicular) // the density hardly changes along the path
+            return distance * (dist.Evaluate(a) + 4.0*dist.Evaluate((a + b)/2.0) + dist.Evaluate(b)) / 6.0;
         return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
     }
 
     double Integral(const math::Vector3D& xi,
                     const math::Vector3D& xj) const override {
-        double a = axis.GetX(xi);
-        double b = axis.GetX(xj);
         math::Vector3D direction = xj-xi;
+        double distance = direction.magnitude();
         direction.normalize();
-        double dxdt = axis.GetdX(xi, direction);
-        return (dist.AntiDerivative(b) - dist.AntiDerivative(a)) / dxdt;
+        return Integral(xi, direction, distance);
     };
 
     double InverseIntegral(const math::Vector3D& xi,
                            const math::Vector3D& direction,
                            double integral,
                            double max_distance) const override {
-        double a = axis.GetX(xi);
-        double b = axis.GetX(xi + direction*max_distance);
-        double dxdt = axis.GetdX(xi, direction);
-
-        double dist_integral = integral * dxdt;
-
-        double Ia = dist.AntiDerivative(a);
-        std::function<double(double)> F = [&](double x)->double {
-            return (dist.AntiDerivative(x) - Ia) - dist_integral;
-        };
-
-        std::function<double(double)> dF = [&](double x)->double {
-            return dist.Evaluate(x);
-        };
-
-        try {
-            double b_res = siren::math::NewtonRaphson(F, dF, a, b, (a+b)/2.0);
-            return (b_res - a)/dxdt;
-        } catch(siren::math::MathException& e) {
-            return -1;
-        }
+        return InverseIntegral(xi, direction, 0.0, integral, max_distance);
     };
 
     double InverseIntegral(const math::Vector3D& xi,
@@ -116,24 +99,16 @@ class DensityDistribution1D<CartesianAxis1D, DistributionT, typename std::enable
                            double constant,
                            double integral,
                            double max_distance) const override {
-        double a = axis.GetX(xi);
-        double b = axis.GetX(xi + direction*max_distance);
-        double dxdt = axis.GetdX(xi, direction);
-
-        double dist_integral = integral * dxdt;
-
-        double Ia = dist.AntiDerivative(a);
-        std::function<double(double)> F = [&](double x)->double {
-            return (dist.AntiDerivative(x) - Ia) + constant*x - dist_integral;
+        std::function<double(double)> F = [&](double t)->double {
+            return Integral(xi, direction, t) + constant*t - integral;
         };
 
-        std::function<double(double)> dF = [&](double x)->double {
-            return dist.Evaluate(x) + constant;
+        std::function<double(double)> dF = [&](double t)->double {
+            return Evaluate(xi + direction*t) + constant;
         };
 
         try {
-            double b_res = siren::math::NewtonRaphson(F, dF, a, b, (a+b)/2.0);
-            return (b_res - a)/dxdt;
+            return siren::math::NewtonRaphson(F, dF, 0, max_distance, max_distance/2.0);
         } catch(siren::math::MathException& e) {
             return -1;
         }
-- 
2.43.0


From 71325a7593bfd45575c101f8ea1df8eb486730a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:46 +0000
Subject: [PATCH 025/182] fix: redefining a material kept components of its
 previous definition

---
 projects/detector/private/MaterialModel.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 871abb5..b0eacf6 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -179,17 +179,20 @@ void MaterialModel::AddMaterial(std::string const & material_name, std::map<int,
     double rad_length = ComputeMaterialRadiationLength(material_id);
     if(new_material) {
         material_radiation_length_.push_back(rad_length);
-        // Store material components by material id and component particle type
-        for(auto const & material_component : material_components) {
-            material_components_by_id_.insert({std::make_pair(material_id, material_component.component.type), material_component});
-        }
     } else {
         material_radiation_length_[material_id] = rad_length;
-        // Store material components by material id and component particle type
-        for(auto const & material_component : material_components) {
-            material_components_by_id_[std::make_pair(material_id, material_component.component.type)] = material_component;
+        // Forget the components of the previous definition
+        for(auto it = material_components_by_id_.begin(); it != material_components_by_id_.end();) {
+            if(it->first.first == material_id)
+                it = material_components_by_id_.erase(it);
+            else
+                ++it;
         }
     }
+    // Store material components by material id and component particle type
+    for(auto const & material_component : material_components) {
+        material_components_by_id_.insert({std::make_pair(material_id, material_component.component.type), material_component});
+    }
 }
 
 void MaterialModel::AddModelFiles(std::vector<std::string> const & matratios) {
-- 
2.43.0


From 19dfbab6ed4c1fd381f73f83b344b3c66ce8e6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:46 +0000
Subject: [PATCH 026/182] fix: GetTargetRadiationFraction returned zero for
 present targets and failed for absent ones

---
 projects/detector/private/MaterialModel.cxx               | 4 +++-
 projects/detector/public/SIREN/detector/MaterialModel.tcc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index b0eacf6..b9b33c6 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -387,7 +387,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
     fractions.reserve(particle_types.size());
     for(auto const & particle_type : particle_types) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, particle_type);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
@@ -404,6 +404,8 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, s
         fractions.push_back(frac);
         X0inv += frac;
     }
+    if(X0inv == 0)
+        return fractions; // no atoms among the targets
     for(unsigned int i=0; i<fractions.size(); ++i) {
         fractions[i] /= X0inv;
     }
diff --git a/projects/detector/public/SIREN/detector/MaterialModel.tcc b/projects/detector/public/SIREN/detector/MaterialModel.tcc
index 4bb1f6a..1e96eb1 100644
--- a/projects/detector/public/SIREN/detector/MaterialModel.tcc
+++ b/projects/detector/public/SIREN/detector/MaterialModel.tcc
@@ -46,7 +46,7 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
     fractions.reserve(std::distance(begin, end));
     for(Iterator it = begin; it != end; ++it) {
         std::pair<int, siren::dataclasses::ParticleType> key(material_id, *it);
-        if(material_components_by_id_.find(key) != material_components_by_id_.end()) {
+        if(material_components_by_id_.find(key) == material_components_by_id_.end()) {
             fractions.push_back(0.0);
             continue;
         }
@@ -63,6 +63,8 @@ std::vector<double> MaterialModel::GetTargetRadiationFraction(int material_id, I
         fractions.push_back(frac);
         X0inv += frac;
     }
+    if(X0inv == 0)
+        return fractions; // no atoms among the targets
     for(unsigned int i=0; i<fractions.size(); ++i) {
         fractions[i] /= X0inv;
     }
-- 
2.43.0


From 1e1db26cafc4b9134c6d5d33c7ddf543b17fafcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:46 +0000
Subject: [PATCH 027/182] fix: a material file that ends within a material was
 read forever

---
 projects/detector/private/MaterialModel.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index b9b33c6..31ddcb5 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -266,7 +266,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
 
             std::map<int, double> component_mass_fractions;
             for(int i=0; i<num_components; ++i) {
-                std::getline(in, buffer);
+                if(not std::getline(in, buffer))
+                    throw(std::runtime_error("Material " + material_name + " in " + fname + " has fewer components than declared!"));
                 nread = buffer.size();
                 if(nread == 0 || buffer[0] == ' ' || buffer[0] == '\t' || buffer[0] == '#') {
                     // new line, start from white space, or comment line.
-- 
2.43.0


From dd51c11d5c64c283192404e3eec717f5ea2a9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:40 +0000
Subject: [PATCH 028/182] fix: malformed component rows of material files were
 accepted

---
 projects/detector/private/MaterialModel.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 31ddcb5..02db4b6 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -275,7 +275,8 @@ void MaterialModel::AddModelFile(std::string matratio) {
                     continue;
                 } else {
                     std::stringstream ss2(buffer);
-                    ss2 >> component_pdg_code >> mass_fraction;
+                    if(not (ss2 >> component_pdg_code >> mass_fraction))
+                        throw(std::runtime_error("Malformed component of material " + material_name + " in " + fname + ": " + buffer));
                     component_mass_fractions[component_pdg_code] = mass_fraction;
                 }
             }
-- 
2.43.0


From f65ed16c6c76ee036ac919635f7f0bc44a6e880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:56 +0000
Subject: [PATCH 029/182] fix: matrices from rotating-frame Euler angles
 exchanged the wrong angles

---
 projects/math/public/SIREN/math/Conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/public/SIREN/math/Conversions.h b/projects/math/public/SIREN/math/Conversions.h
index a72d643..5133610 100644
--- a/projects/math/public/SIREN/math/Conversions.h
+++ b/projects/math/public/SIREN/math/Conversions.h
@@ -141,7 +141,7 @@ Matrix3D Matrix3DFromEulerAngles(EulerAngles const & euler) {
     double gamma = euler.GetGamma();
 
     if(f == EulerFrame::Rotating) {
-        std::swap(alpha, beta);
+        std::swap(alpha, gamma);
     }
 
     if(n == EulerParity::Odd) {
-- 
2.43.0


From 7f5bc887fe47f6470fd6458cd786dcb1ea09d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:56 +0000
Subject: [PATCH 030/182] fix: Quaternion + scalar multiplied instead of adding

---
 projects/math/private/Quaternion.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index dbbf871..eb74637 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -190,7 +190,7 @@ Quaternion & Quaternion::operator+=(Quaternion const & other)
 
 Quaternion Quaternion::operator+(double factor) const
 {
-    return Quaternion(factor * x_, factor * y_, factor * z_, factor * w_);
+    return Quaternion(factor + x_, factor + y_, factor + z_, factor + w_);
 }
 
 Quaternion & Quaternion::operator+=(double factor)
-- 
2.43.0


From 4d1925db92f9ecf6ee432c1ee1c21558913dab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:56 +0000
Subject: [PATCH 031/182] fix: slerp between coinciding rotations was not a
 number

---
 projects/math/private/Quaternion.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index eb74637..b58d76d 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -426,10 +426,11 @@ Quaternion Quaternion::slerp(Quaternion const & q1, Quaternion const & q2, doubl
     double dotproduct = q1.DotProduct(q2);
 	double theta, st, sut, sout, coeff1, coeff2;
 
-	theta = (double) acos(dotproduct);
+	theta = (double) acos(std::max(-1.0, std::min(1.0, dotproduct)));
 	if (theta<0.0) theta = -theta;
 
 	st = (double) sin(theta);
+	if (st == 0.0) return lerp(q1, q2, t).normalized();
 	sut = (double) sin(t*theta);
 	sout = (double) sin((1.0 - t)*theta);
 	coeff1 = sout/st;
-- 
2.43.0


From a32b484004d18ae67f907bca33d01310dc2b36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:55 +0000
Subject: [PATCH 032/182] fix: rotation between opposite directions was the
 identity or about a wrong axis

---
 projects/math/private/Quaternion.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/math/private/Quaternion.cxx b/projects/math/private/Quaternion.cxx
index b58d76d..194d1d2 100644
--- a/projects/math/private/Quaternion.cxx
+++ b/projects/math/private/Quaternion.cxx
@@ -510,7 +510,8 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
     Vector3D dir0 = v0.normalized();
     Vector3D dir1 = v1.normalized();
     double dot = scalar_product(dir0, dir1);
-    if(dot == -1.0) {
+    // The rotation axis cannot be found from the cross product of (nearly) opposite directions
+    if(dot <= -1.0 + 1e-15) {
         // Special case for 180deg rotation
         // Find most perpendicular axis vector
         Vector3D vecs[3] = {
@@ -524,7 +525,7 @@ Quaternion siren::math::rotation_between(Vector3D const & v0, Vector3D const & v
             std::abs(scalar_product(vecs[2], dir0))
         };
         // Find axis vector most perpendicular to original direction
-        size_t idx = std::distance(&(dots), std::min_element(&(dots), &(dots)+3));
+        size_t idx = std::distance(dots, std::min_element(dots, dots + 3));
         // Initialize quaternion with unit vector perpendicular to original direction and selected axis
         return Quaternion(cross_product(vecs[idx], dir0).normalized());
     } else {
-- 
2.43.0


From d0b20131eccbe59cccc8f082fca2c180672ce63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 033/182] fix: rotationBetween compares with the integer abs
 and returns the identity for angles below 90 degrees

---
 vendor/rk/rk/geom3_Vector3.icc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vendor/rk/rk/geom3_Vector3.icc b/vendor/rk/rk/geom3_Vector3.icc
index 3e443fe..fc28648 100644
--- a/vendor/rk/rk/geom3_Vector3.icc
+++ b/vendor/rk/rk/geom3_Vector3.icc
@@ -292,12 +292,12 @@ namespace geom3 {
         UnitVector3 d2 = v2;
         Vector3 cross = d1.cross(d2);
         double scalar = d1.dot(d2);
-        if(abs(1.0 - scalar) < 1e-9) {
+        if(std::abs(1.0 - scalar) < 1e-9) {
             return Rotation3();
-        } else if (abs(1.0 + scalar) < 1e-9) {
-            double x = abs(v1.x());
-            double y = abs(v1.y());
-            double z = abs(v1.z());
+        } else if (std::abs(1.0 + scalar) < 1e-9) {
+            double x = std::abs(v1.x());
+            double y = std::abs(v1.y());
+            double z = std::abs(v1.z());
 
             UnitVector3 other = x < y ? (x < z ? UnitVector3::xAxis() : UnitVector3::zAxis()) : (y < z ? UnitVector3::zAxis() : UnitVector3::zAxis());
             UnitVector3 vo = v1.cross(other).direction();
-- 
2.43.0


From 1be794842d69e7b85995d537bd376f7024f8c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 034/182] fix: HNL two-body decays drop the sign of a negative
 vector-meson asymmetry

---
 projects/interactions/private/HNLDecay.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2f33d73..ddfc6db 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -843,7 +843,7 @@ double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & r
       X_dir.normalize();
       double CosThetaGamma = X_dir*hnl_dir; // scalar product
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       return DecayWidth/2. * (1 + alpha*CosThetaGamma);
     } // end 2 body decays
@@ -925,7 +925,7 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
 
       double CosTheta;
       double alpha = GetAlpha(record.signature.secondary_types[X_index]);
-      alpha = std::copysign(alpha,record.primary_helicity); // 1 for RH, -1 for LH
+      alpha *= std::copysign(1.0,record.primary_helicity); // 1 for RH, -1 for LH
       alpha = (record.signature.primary_type == siren::dataclasses::ParticleType::N4) ? -1*alpha : alpha;
       if(nature==ChiralNature::Majorana || std::abs(alpha) < 1e-12) {
         CosTheta = random->Uniform(-1,1);
-- 
2.43.0


From a5e159ecfd163356fd4ab64844d6d419a9186797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 035/182] fix: HNL two-body decays give NaN momenta when
 rounding moves cos(theta) out of [-1,1]

---
 projects/interactions/private/HNLDecay.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index ddfc6db..70c780e 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -933,6 +933,7 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
       else {
         double C = random->Uniform(0,1);
         CosTheta = (std::sqrt(1  - 2*alpha*(1 - alpha/2. - 2*C)) - 1)/alpha;
+        CosTheta = std::min(std::max(CosTheta, -1.0), 1.0); // rounding must not leave the range of acos
       }
       double SinTheta = std::sin(std::acos(CosTheta));
 
-- 
2.43.0


From 54d27b1ae3a4c0b8ed4f3f4d8f4dc8c88a89bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:42 +0000
Subject: [PATCH 036/182] fix: W and Z decays record a NaN mass for light
 second daughters

---
 projects/interactions/private/ElectroweakDecay.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/interactions/private/ElectroweakDecay.cxx b/projects/interactions/private/ElectroweakDecay.cxx
index d61fc2e..6ad2232 100644
--- a/projects/interactions/private/ElectroweakDecay.cxx
+++ b/projects/interactions/private/ElectroweakDecay.cxx
@@ -224,8 +224,7 @@ void ElectroweakDecay::SampleFinalState(dataclasses::CrossSectionDistributionRec
     pX_Bosonrest.rotate(rand_rot);
 
     rk::P4 pX = pX_Bosonrest.boost(boost_to_lab);
-    rk::P4 pY = pBoson - pX;
-    assert(abs(pY.m()-mY)<1e-6);
+    rk::P4 pY(pBoson.momentum() - pX.momentum(), mY); // keeps Y on its mass shell, avoids rounding errors
 
     siren::dataclasses::SecondaryParticleRecord & X = record.GetSecondaryParticleRecord(0);
     siren::dataclasses::SecondaryParticleRecord & Y = record.GetSecondaryParticleRecord(1);
-- 
2.43.0


From 0853e76c94d17fcee12ebc81314942f8c312382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 037/182] fix: sampling an HNL decay to a lepton and hadrons
 throws

---
 projects/interactions/private/HNLDecay.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 70c780e..4c7e2de 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -948,7 +948,9 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
       double phi = random->Uniform(0, 2.0 * M_PI);
       geom3::Rotation3 rand_rot(pHNL_dir, phi);
 
-      double mX = siren::dataclasses::GetParticleMass(record.signature.secondary_types[X_index]);
+      siren::dataclasses::ParticleType const & X_type = record.signature.secondary_types[X_index];
+      // "Hadrons" has no entry in the particle mass table
+      double mX = (X_type == siren::dataclasses::ParticleType::Hadrons) ? GetMass(X_type) : siren::dataclasses::GetParticleMass(X_type);
       double mLep = siren::dataclasses::GetParticleMass(record.signature.secondary_types[lep_index]);
       double EX_HNLrest = (hnl_mass*hnl_mass + mX*mX - mLep*mLep) / (2.*hnl_mass);
       rk::P4 pX_HNLrest(sqrt(pow(EX_HNLrest,2)-pow(mX,2))*geom3::Vector3(CosTheta,SinTheta,0),mX);
-- 
2.43.0


From 4f08f5d3650750fdd9f45ff87ca5d64c3c0d81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 038/182] fix: HNL three-body differential width has its two
 invariants swapped and turns negative

---
 projects/interactions/private/HNLDecay.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 4c7e2de..d081078 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -1193,8 +1193,9 @@ double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord
   }
   double x3 = m_alpha/hnl_mass;
   double x4 = m_beta/hnl_mass;
-  double A0sq = C1*(s2 - x3*x3) * (1 + x4*x4 - s2) + C2*(s1 - x4*x4)*(1 + x3*x3 - s1) + 2*C3*x3*x4*(s1 + s2 - x3*x3 - x4*x4);
-  double A1sq = (C4*(s2-x3*x3) - 2*C6*x3*x4)*sqrt(lambda(1,s2,x4*x4))*CosTheta4 + (C5*(s1-x4*x4) - 2*C6*x3*x4)*sqrt(lambda(1,s1,x3*x3))*CosTheta3;
+  // s1 = (k2 + k3)^2 / mN^2 >= x3^2 recoils against k4, s2 = (k2 + k4)^2 / mN^2 >= x4^2 recoils against k3
+  double A0sq = C1*(s1 - x3*x3) * (1 + x4*x4 - s1) + C2*(s2 - x4*x4)*(1 + x3*x3 - s2) + 2*C3*x3*x4*(s1 + s2 - x3*x3 - x4*x4);
+  double A1sq = (C4*(s1-x3*x3) - 2*C6*x3*x4)*sqrt(std::max(0.,lambda(1,s1,x4*x4)))*CosTheta4 + (C5*(s2-x4*x4) - 2*C6*x3*x4)*sqrt(std::max(0.,lambda(1,s2,x3*x3)))*CosTheta3;
   double prefactor = pow(siren::utilities::Constants::FermiConstant,2)*pow(hnl_mass,5) / (128*pow(siren::utilities::Constants::pi,5));
   double GammaPlus = prefactor*(A0sq+A1sq);
   double GammaMinus = prefactor*(A0sq-A1sq);
-- 
2.43.0


From 140f64ce8110fb5dbad610009cc8b2c12358e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 039/182] fix: HNL three-body differential width uses lab-frame
 angles and turns negative

---
 projects/interactions/private/HNLDecay.cxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index d081078..2aab9a2 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -890,8 +890,10 @@ double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & r
         // let's get the phase space variables
         double s1 = (k2+k3).dot(k2+k3) / pow(hnl_mass,2);
         double s2 = (k2+k4).dot(k2+k4) / pow(hnl_mass,2);
-        double CosTheta3 = k1.momentum().direction().dot(k3.momentum().direction()); // Angle between HNL and k3 in lab frame
-        double CosTheta4 = k1.momentum().direction().dot(k4.momentum().direction()); // Angle between HNL and k4 in lab frame
+        // Angles of the charged leptons with respect to the HNL direction, in the HNL rest frame
+        rk::Boost boost_to_HNL_rest = k1.restBoost();
+        double CosTheta3 = k1.momentum().direction().dot(k3.boost(boost_to_HNL_rest).momentum().direction());
+        double CosTheta4 = k1.momentum().direction().dot(k4.boost(boost_to_HNL_rest).momentum().direction());
 
         return ThreeBodyDifferentialDecayWidth(record, alpha, beta, m_alpha, m_beta, s1, s2, CosTheta3, CosTheta4);
       }
@@ -1134,7 +1136,7 @@ void HNLDecay::SetGammaHadrons(double Gamma, std::string mode) {
 //////////////////////////////
 
 // follows 3.13 of 1905.00284v2 and subsequent sections
-// Takes as input lab frame angles
+// Takes as input the lepton angles with respect to the HNL direction in the HNL rest frame
 // Process: N (k1) -> nu (k2) l_alpha- (k3) l_beta+ (k4)
 double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord const & record,
                                                  int & alpha, int & beta,
@@ -1256,10 +1258,11 @@ double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord
   std::pair<rk::P4,rk::P4> k3k4 = ThreeBodyPhaseSpaceConversion(record,m_alpha,m_beta,s1,s2,CosTheta3_HNLRest,Phi3_HNLRest,PhiRot_HNLRest);
   rk::P4 k3 = k3k4.first;
   rk::P4 k4 = k3k4.second;
-  double CosTheta3 = pHNL.momentum().direction().dot(k3.momentum().direction()); // Angle between HNL and k3 in lab frame
-  double CosTheta4 = pHNL.momentum().direction().dot(k4.momentum().direction()); // Angle between HNL and k4 in lab frame
+  // Angles of the charged leptons with respect to the HNL direction, in the HNL rest frame
+  rk::Boost boost_to_HNL_rest = pHNL.restBoost();
+  double CosTheta3 = pHNL.momentum().direction().dot(k3.boost(boost_to_HNL_rest).momentum().direction());
+  double CosTheta4 = pHNL.momentum().direction().dot(k4.boost(boost_to_HNL_rest).momentum().direction());
 
-  // Call function based on lab frame angles
   return ThreeBodyDifferentialDecayWidth(record,alpha,beta,m_alpha,m_beta,s1,s2,CosTheta3,CosTheta4);
 
 }
-- 
2.43.0


From 09ae42dc2eb0b75baf9f519719db237e9b1f70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 040/182] fix: Majorana HNL three-body decays report a two-body
 density instead of the sampled one

---
 projects/interactions/private/HNLDecay.cxx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index 2aab9a2..c47a1bb 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -806,10 +806,6 @@ double HNLDecay::GetAlpha(dataclasses::ParticleType const & secondary) const {
 // TODO: update two-body decays to arXiv:1905.00284v2
 double HNLDecay::DifferentialDecayWidth(dataclasses::InteractionRecord const & record) const {
     double DecayWidth = TotalDecayWidth(record);
-    // Check for isotropic decay
-    if (nature==ChiralNature::Majorana) {
-      return DecayWidth/2.; // This factor of 2 is for the cosTheta phase space, not the majorana nature :-)
-    }
     if(record.secondary_momenta.size() ==2)
     {
       // Check for isotropic decay
-- 
2.43.0


From feb01419b5d4834dfa5150108bbbacbbd0fb4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 041/182] fix: HNL three-body sampler treats a non-uniform
 proposal as uniform

---
 projects/interactions/private/HNLDecay.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index c47a1bb..bfd4424 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -1037,14 +1037,15 @@ void HNLDecay::SampleFinalState(dataclasses::CrossSectionDistributionRecord & re
         siren::dataclasses::SecondaryParticleRecord & lep_beta = record.GetSecondaryParticleRecord(2);
 
 
-        // Uniform proposal on kinematically-allowed phase space (constant density)
+        // s2 is uniform within the limits allowed by s1, so the density is inverse to that range
         auto proposal_func = [&] () {
-          return std::make_pair(ThreeBodyPhaseSpaceProposalDistribution(m_alpha,m_beta,random), 1.0);
+          std::vector<double> proposed = ThreeBodyPhaseSpaceProposalDistribution(m_alpha,m_beta,random);
+          return std::make_pair(proposed, 1.0/proposed[5]);
         };
 
         // Make likelihood funciton
         auto likelihood_func = [&] (std::vector<double> input) {
-          // assumes input = {s1,s2,CosTheta3_HNLRest,Phi3_HNLRest,PhiRot_HNLRest}
+          // assumes input = {s1,s2,CosTheta3_HNLRest,Phi3_HNLRest,PhiRot_HNLRest,s2 range}
           return ThreeBodyDifferentialDecayWidth(record.record,alpha,beta,m_alpha,m_beta,input[0],input[1],input[2],input[3],input[4]);
         };
 
@@ -1264,7 +1265,7 @@ double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord
 }
 
 // Samples three body phase space
-// s1, s2, CosTheta3, Phi3, PhiRot where angles are in HNL rest frame
+// s1, s2, CosTheta3, Phi3, PhiRot where angles are in HNL rest frame, and the range of s2 allowed by s1
 // PhiRot is the rotation angle of k4 around k3
 // s1 = (k2 + k3)^2 / mN^2
 // s2 = (k2 + k4)^2 / mN^2
@@ -1294,7 +1295,7 @@ std::vector<double> HNLDecay::ThreeBodyPhaseSpaceProposalDistribution(double & m
   double Phi3 = random->Uniform(0,2*siren::utilities::Constants::pi);
   double PhiRot = random->Uniform(0,2*siren::utilities::Constants::pi);
 
-  return {s1,s2,CosTheta3,Phi3,PhiRot};
+  return {s1,s2,CosTheta3,Phi3,PhiRot,s2_max-s2_min};
 }
 
 
-- 
2.43.0


From e9710ef7d51dce2294e3084b88ae1883d2d9a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 042/182] fix: HNL three-body differential and total widths
 disagree

---
 projects/interactions/private/HNLDecay.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/interactions/private/HNLDecay.cxx b/projects/interactions/private/HNLDecay.cxx
index bfd4424..da5247e 100644
--- a/projects/interactions/private/HNLDecay.cxx
+++ b/projects/interactions/private/HNLDecay.cxx
@@ -590,7 +590,7 @@ double HNLDecay::TotalDecayWidth(dataclasses::InteractionRecord const & record)
       else {
         charged = true;
         if ((x_alpha+x_beta)>=1) return 0;
-        double prefactor = pow(siren::utilities::Constants::FermiConstant,2) * pow(hnl_mass,5) / (384*pow(siren::utilities::Constants::pi,3));
+        double prefactor = pow(siren::utilities::Constants::FermiConstant,2) * pow(hnl_mass,5) / (192*pow(siren::utilities::Constants::pi,3));
         if(nature==ChiralNature::Majorana) {
           return prefactor * ((pow(mixing[alpha],2) * I1(0,x_alpha*x_alpha,x_beta*x_beta)) + (pow(mixing[beta],2) * I1(0,x_beta*x_beta,x_alpha*x_alpha)));
         }
@@ -1148,11 +1148,11 @@ double HNLDecay::ThreeBodyDifferentialDecayWidth(dataclasses::InteractionRecord
   double C1nubar = 0,C2nubar = 0,C3nubar = 0,C4nubar = 0,C5nubar = 0,C6nubar = 0;
 
   for(int gamma = 0; gamma < 3; ++gamma) {
-    C1nu += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==alpha)*(1 + (alpha==beta)*gL));
+    C1nu += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==alpha)*(1 + (alpha==beta)*2*gL));
     C2nu += (alpha==beta)*pow(gR,2)*pow(mixing[gamma],2);
     C3nu += (alpha==beta)*gR*pow(mixing[gamma],2)*((gamma==beta)+gL);
     C1nubar += (alpha==beta)*pow(gR,2)*pow(mixing[gamma],2);
-    C2nubar += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==beta)*(1 + (alpha==beta)*gL));
+    C2nubar += pow(mixing[gamma],2)*((alpha==beta)*pow(gL,2) + (gamma==beta)*(1 + (alpha==beta)*2*gL));
     C3nubar += (alpha==beta)*gR*pow(mixing[gamma],2)*((gamma==alpha)+gL);
   }
   C4nu = C1nu;
-- 
2.43.0


From f6d089e7ea63c59aaa7b213757cc83f4f9b2430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 043/182] fix: ElasticScattering does not sample y from its own
 differential cross section

---
 projects/interactions/private/ElasticScattering.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index 6e136e4..85992d7 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -150,6 +150,7 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     // evalutates the differential spline at that point
     test_cross_section = ElasticScattering::DifferentialCrossSection(primary_type, primary_energy, test_y);
 
+    y = test_y;
     cross_section = test_cross_section;
 
     // this is the magic part. Metropolis Hastings Algorithm.
@@ -165,8 +166,8 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_y*test_cross_section) / (y*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        // the trial points are uniform in log(y), so the odds need the corresponding factor of y
+        double odds = ((test_y*test_cross_section) / (y*cross_section));
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 89da16db6e1b1ccef6767b0d0d6186cd5bea4e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 044/182] fix: ElasticScattering returns NaN momenta at the
 edge of phase space

---
 projects/interactions/private/ElasticScattering.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index 85992d7..f87e25b 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -196,7 +196,7 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     double costh_lab = (m3+primary_energy)/primary_energy * sqrt((E3_lab - m3)/(E3_lab + m3));
     //std::cout << final_y << " " << costh_lab << std::endl;
     double p3x_lab = costh_lab * sqrt(p3_lab_sq);
-    double p3y_lab = sqrt(p3_lab_sq - p3x_lab * p3x_lab);
+    double p3y_lab = sqrt(std::max(p3_lab_sq - p3x_lab * p3x_lab, 0.0));
 
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
-- 
2.43.0


From b5c484ce1e46d1d79029cb8994a30f0c24a8090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 045/182] fix: ElasticScattering final states do not conserve
 momentum

---
 projects/interactions/private/ElasticScattering.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/interactions/private/ElasticScattering.cxx b/projects/interactions/private/ElasticScattering.cxx
index f87e25b..39f25e5 100644
--- a/projects/interactions/private/ElasticScattering.cxx
+++ b/projects/interactions/private/ElasticScattering.cxx
@@ -201,8 +201,7 @@ void ElasticScattering::SampleFinalState(dataclasses::CrossSectionDistributionRe
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
     p3_lab.rotate(rand_rot);
-    // doing something dumb, ignore outgoing neutrino
-    rk::P4 p4_lab = p1_lab;//p2_lab + (p1_lab - p3_lab);
+    rk::P4 p4_lab(p1_lab.momentum() - p3_lab.momentum(), record.primary_mass);
 
     siren::dataclasses::SecondaryParticleRecord & electron = record.GetSecondaryParticleRecord(electron_index);
     siren::dataclasses::SecondaryParticleRecord & neutrino = record.GetSecondaryParticleRecord(nu_index);
-- 
2.43.0


From 03a8a9352d1c0a0ae2081d34665f4bb39d03843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 046/182] fix: HNLDipoleFromTable evaluates recorded
 interactions with the primary's mass as target mass

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index b7eea32..ad09ff0 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -165,7 +165,7 @@ double HNLDipoleFromTable::DifferentialCrossSection(dataclasses::InteractionReco
     siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double primary_mass = interaction.primary_mass;
-    double target_mass = interaction.primary_mass;
+    double target_mass = interaction.target_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
     rk::P4 p2(geom3::Vector3(0, 0, 0), target_mass);
     double primary_energy;
-- 
2.43.0


From 7fb863d4837b67fef52944aaca9c5e3c4c8ad031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 047/182] fix: HNLDipoleFromTable does not sample y from its
 own differential cross section

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index ad09ff0..81fa560 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -394,8 +394,8 @@ void HNLDipoleFromTable::SampleFinalState(dataclasses::CrossSectionDistributionR
         if(std::isnan(test_cross_section) or test_cross_section <= 0)
             continue;
 
-        //double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
-        double odds = (test_cross_section / cross_section); // this gives a better match to the y distribution
+        // the trial points are uniform in log(y), so the odds need the corresponding factor of y
+        double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 5a7649d75408737f6dd421ee67c3712e724900b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 048/182] fix: HNLDipoleFromTable upper y limit scales its root
 term with the wrong factor

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 81fa560..0fd0729 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -105,7 +105,7 @@ double HNLDipoleFromTable::DipoleyMax(double Enu, double mHNL, double target_mas
 
     // require cos(theta)>=-1
     double root_term = 4*Enu*Enu*target_mass2 - 4*Enu*target_mass*mHNL2 - 4*target_mass2*mHNL2 + mHNL2*mHNL2;
-    double costh_bound = (1./(2*s)) * (2*Enu*target_mass - mHNL2 - target_mass*mHNL2/Enu) + std::sqrt(root_term);
+    double costh_bound = (1./(2*s)) * (2*Enu*target_mass - mHNL2 - target_mass*mHNL2/Enu + std::sqrt(root_term));
 
     return std::min(costh_bound,0.5 * (target_mass4 - mHNL2*s + s2 - target_mass2*(mHNL2+2*s) + (s - target_mass2) * std::sqrt(target_mass4 + std::pow(mHNL2 - s, 2) - 2*target_mass2*(mHNL2+s))) / (s * (2 * Enu * target_mass)));
 }
-- 
2.43.0


From af72347bc0bf4ac6fc39a286b2ec32e74ca8b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 049/182] fix: HNLDipoleFromTable returns NaN momenta at the
 edge of phase space

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index 0fd0729..ee1a595 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -424,7 +424,7 @@ void HNLDipoleFromTable::SampleFinalState(dataclasses::CrossSectionDistributionR
     //double p3x_lab_frac = (p1x_lab * p1x_lab - m3 * m3 + E1_lab * E1_lab * (1.0 - 2.0 * final_y)) / (2.0 * p1x_lab * E3_lab);
     //double p3x_lab = p3x_lab_frac * sqrt(p3_lab_sq);
     double p3x_lab = E3_lab - m2*final_y - m3*m3/(2*E1_lab);
-    double p3y_lab = sqrt(p3_lab_sq - p3x_lab * p3x_lab);
+    double p3y_lab = sqrt(std::max(p3_lab_sq - p3x_lab * p3x_lab, 0.0));
 
     rk::P4 p3_lab(geom3::Vector3(p3x_lab, p3y_lab, 0), m3);
     p3_lab.rotate(x_to_p1_lab_rot);
-- 
2.43.0


From 693100644e6d9c1c8e210b4cf7317454e7864c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 050/182] fix: HNLDipoleFromTable comparison ignores the
 coupling, units and inelastic settings

---
 projects/interactions/private/HNLDipoleFromTable.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/interactions/private/HNLDipoleFromTable.cxx b/projects/interactions/private/HNLDipoleFromTable.cxx
index ee1a595..7ee3dd8 100644
--- a/projects/interactions/private/HNLDipoleFromTable.cxx
+++ b/projects/interactions/private/HNLDipoleFromTable.cxx
@@ -53,7 +53,10 @@ bool HNLDipoleFromTable::equal(CrossSection const & other) const {
                     z_samp,
                     primary_types,
                     hnl_mass,
+                    dipole_coupling,
                     channel,
+                    in_invGeV,
+                    inelastic,
                     differential,
                     total)
             ==
@@ -61,7 +64,10 @@ bool HNLDipoleFromTable::equal(CrossSection const & other) const {
                     x->z_samp,
                     x->primary_types,
                     x->hnl_mass,
+                    x->dipole_coupling,
                     x->channel,
+                    x->in_invGeV,
+                    x->inelastic,
                     x->differential,
                     x->total);
 }
-- 
2.43.0


From ca2aec84aa41e90def3ca9f7cdda6df45ee27821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 051/182] fix: DarkNewsCrossSection asks for the total cross
 section on the primary instead of the target

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 70ebc2f..deb7fa9 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -33,7 +33,7 @@ bool DarkNewsCrossSection::equal(CrossSection const & other) const {
 
 double DarkNewsCrossSection::TotalCrossSection(dataclasses::InteractionRecord const & interaction) const {
     siren::dataclasses::ParticleType primary_type = interaction.signature.primary_type;
-    siren::dataclasses::ParticleType target_type = interaction.signature.primary_type;
+    siren::dataclasses::ParticleType target_type = interaction.signature.target_type;
     std::array<double, 4> const & primary_momentum = interaction.primary_momentum;
     double const & primary_mass = interaction.primary_mass;
     rk::P4 p1(geom3::Vector3(primary_momentum[1], primary_momentum[2], primary_momentum[3]), primary_mass);
-- 
2.43.0


From 06e51e53ade7ce2132d7c35e5150f539b0271208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 052/182] fix: DarkNewsCrossSection computes the recorded Q2
 from the target instead of the outgoing particle

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index deb7fa9..0e141cc 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -55,7 +55,7 @@ double DarkNewsCrossSection::DifferentialCrossSection(dataclasses::InteractionRe
     rk::P4 p1_lab;
     rk::P4 p3_lab;
     p1_lab = p1;
-    p3_lab = p2;
+    p3_lab = p3;
     primary_energy = p1_lab.e();
     double Q2 = -1*(std::pow(p1_lab.m(),2) + std::pow(p3_lab.m(),2) - 2.0*p1_lab.dot(p3_lab));
 
-- 
2.43.0


From 33a5b4beb4067c080524203624ddd203d89db7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 053/182] fix: DarkNewsCrossSection does not sample Q2 from its
 own differential cross section

---
 projects/interactions/private/DarkNewsCrossSection.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/interactions/private/DarkNewsCrossSection.cxx b/projects/interactions/private/DarkNewsCrossSection.cxx
index 0e141cc..c1f976f 100644
--- a/projects/interactions/private/DarkNewsCrossSection.cxx
+++ b/projects/interactions/private/DarkNewsCrossSection.cxx
@@ -194,7 +194,8 @@ void DarkNewsCrossSection::SampleFinalState(dataclasses::CrossSectionDistributio
         // repeat the sampling from above to get a new valid point
         test_kin_vars[1] = std::pow(10,random->Uniform(log_minQ2,log_maxQ2));
         test_cross_section = DifferentialCrossSection(record.GetPrimaryType(), record.GetTargetType(), primary_energy, test_kin_vars[1]);
-        double odds = (test_cross_section / cross_section);
+        // the trial points are uniform in log(Q2), so the odds need the corresponding factor of Q2
+        double odds = ((test_kin_vars[1]*test_cross_section) / (kin_vars[1]*cross_section));
         accept = (cross_section == 0 || (odds > 1.) || random->Uniform(0, 1) < odds);
 
         if(accept) {
-- 
2.43.0


From 73912b83b7f1bccc175ce9da7ba145b35cc35213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 054/182] fix: DummyCrossSection offers signatures for targets
 it does not support

---
 projects/interactions/private/DummyCrossSection.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/DummyCrossSection.cxx b/projects/interactions/private/DummyCrossSection.cxx
index c415503..ef238b5 100644
--- a/projects/interactions/private/DummyCrossSection.cxx
+++ b/projects/interactions/private/DummyCrossSection.cxx
@@ -184,7 +184,7 @@ std::vector<dataclasses::InteractionSignature> DummyCrossSection::GetPossibleSig
     std::vector<dataclasses::InteractionSignature> sigs = DummyCrossSection::GetPossibleSignatures();
     std::vector<dataclasses::InteractionSignature> these_sigs;
     for(auto sig : sigs) {
-        if(sig.primary_type == primary_type)
+        if(sig.primary_type == primary_type and sig.target_type == target_type)
             these_sigs.push_back(sig);
     }
     return these_sigs;
-- 
2.43.0


From 6c4beafafb44f2565d4c6168b82a49c0535f5339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:11 +0000
Subject: [PATCH 055/182] fix: DummyCrossSection returns NaN momenta for
 kinematically forbidden x and y

---
 .../private/DummyCrossSection.cxx             | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/projects/interactions/private/DummyCrossSection.cxx b/projects/interactions/private/DummyCrossSection.cxx
index ef238b5..a22541f 100644
--- a/projects/interactions/private/DummyCrossSection.cxx
+++ b/projects/interactions/private/DummyCrossSection.cxx
@@ -76,25 +76,30 @@ void DummyCrossSection::SampleFinalState(dataclasses::CrossSectionDistributionRe
     p2_lab = p2;
     primary_energy = p1_lab.e();
 
-    double final_x = random->Uniform(0, 1);
-    double final_y = random->Uniform(0, 1);
-
-    record.interaction_parameters.clear();
-    record.interaction_parameters["energy"] = primary_energy;
-    record.interaction_parameters["bjorken_x"] = final_x;
-    record.interaction_parameters["bjorken_y"] = final_y;
-
     double m1 = record.primary_mass;
     double m3 = 0;
     double E1_lab = p1_lab.e();
     double E2_lab = p2_lab.e();
-    double Q2 = 2 * E1_lab * E2_lab * final_x * final_y;
     double p1x_lab = std::sqrt(p1_lab.px() * p1_lab.px() + p1_lab.py() * p1_lab.py() + p1_lab.pz() * p1_lab.pz());
-    double pqx_lab = (m1*m1 + m3*m3 + 2 * p1x_lab * p1x_lab + Q2 + 2 * E1_lab * E1_lab * (final_y - 1)) / (2.0 * p1x_lab);
-    double momq_lab = std::sqrt(m1*m1 + p1x_lab*p1x_lab + Q2 + E1_lab * E1_lab * (final_y * final_y - 1));
-    double pqy_lab = std::sqrt(momq_lab*momq_lab - pqx_lab *pqx_lab);
+
+    double final_x, final_y, pqx_lab, pqy_lab_sq;
+    // only kinematically allowed combinations of x and y are kept
+    do {
+        final_x = random->Uniform(0, 1);
+        final_y = random->Uniform(0, 1);
+        double Q2 = 2 * E1_lab * E2_lab * final_x * final_y;
+        pqx_lab = (m1*m1 + m3*m3 + 2 * p1x_lab * p1x_lab + Q2 + 2 * E1_lab * E1_lab * (final_y - 1)) / (2.0 * p1x_lab);
+        double momq_lab_sq = m1*m1 + p1x_lab*p1x_lab + Q2 + E1_lab * E1_lab * (final_y * final_y - 1);
+        pqy_lab_sq = momq_lab_sq - pqx_lab * pqx_lab;
+    } while(pqy_lab_sq < 0);
+    double pqy_lab = std::sqrt(pqy_lab_sq);
     double Eq_lab = E1_lab * final_y;
 
+    record.interaction_parameters.clear();
+    record.interaction_parameters["energy"] = primary_energy;
+    record.interaction_parameters["bjorken_x"] = final_x;
+    record.interaction_parameters["bjorken_y"] = final_y;
+
     geom3::UnitVector3 x_dir = geom3::UnitVector3::xAxis();
     geom3::Vector3 p1_mom = p1_lab.momentum();
     geom3::UnitVector3 p1_lab_dir = p1_mom.direction();
-- 
2.43.0


From f03522b787e87bda0bb05e2b98feb225f0974322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:03 +0000
Subject: [PATCH 056/182] fix: InteractionCollection comparison depends on
 where the interactions are stored

---
 .../private/InteractionCollection.cxx          | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/projects/interactions/private/InteractionCollection.cxx b/projects/interactions/private/InteractionCollection.cxx
index 28138f2..22cd089 100644
--- a/projects/interactions/private/InteractionCollection.cxx
+++ b/projects/interactions/private/InteractionCollection.cxx
@@ -6,6 +6,7 @@
 #include <limits>                                             // for numeric...
 #include <vector>                                             // for vector
 #include <utility>                                            // for pair
+#include <algorithm>                                          // for equal
 
 #include "SIREN/interactions/Interaction.h"          // for Interaction
 #include "SIREN/interactions/CrossSection.h"        // for CrossSe...
@@ -78,11 +79,24 @@ InteractionCollection::InteractionCollection(siren::dataclasses::ParticleType pr
     InitializeTargetTypes();
 }
 
+namespace {
+// Compares the interactions themselves rather than where they are stored
+template<typename T>
+bool SameInteractions(std::vector<std::shared_ptr<T>> const & a, std::vector<std::shared_ptr<T>> const & b) {
+    return a.size() == b.size() and std::equal(a.begin(), a.end(), b.begin(),
+            [](std::shared_ptr<T> const & x, std::shared_ptr<T> const & y) {
+                return x == y or (x and y and *x == *y);
+            });
+}
+}
+
 bool InteractionCollection::operator==(InteractionCollection const & other) const {
     return
-        std::tie(primary_type, target_types, cross_sections, decays)
+        std::tie(primary_type, target_types)
         ==
-        std::tie(other.primary_type, other.target_types, other.cross_sections, other.decays);
+        std::tie(other.primary_type, other.target_types)
+        and SameInteractions(cross_sections, other.cross_sections)
+        and SameInteractions(decays, other.decays);
 }
 
 std::vector<std::shared_ptr<CrossSection>> const & InteractionCollection::GetCrossSectionsForTarget(siren::dataclasses::ParticleType p) const {
-- 
2.43.0


From 5367fc66e7e56a9bfc6bd9fb5f55d9ce760eecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:32 +0000
Subject: [PATCH 057/182] fix: a transfer that ends early is installed as a
 complete file

---
 python/download.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/download.py b/python/download.py
index 9c101ea..51bc92d 100644
--- a/python/download.py
+++ b/python/download.py
@@ -156,6 +156,11 @@ def download_file(url: str, dest: str, sha256: str = "",
             if show_progress and total > 0:
                 print()
 
+        if total > 0 and downloaded != total:
+            raise ConnectionError(
+                f"Incomplete download of {label}: "
+                f"got {downloaded} of {total} bytes")
+
         if sha256:
             got = h.hexdigest()
             if got != sha256:
-- 
2.43.0


From 9448afe12e9da3ccbf14f5df58e3f3f6d3907942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:32 +0000
Subject: [PATCH 058/182] fix: concurrent downloads of one file share a
 temporary file

---
 python/download.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index 51bc92d..d0b5cec 100644
--- a/python/download.py
+++ b/python/download.py
@@ -42,6 +42,7 @@ import os
 import sys
 import urllib.error
 import urllib.request
+import uuid
 import zipfile
 from typing import Any
 
@@ -118,7 +119,8 @@ def download_file(url: str, dest: str, sha256: str = "",
     - Progress bar on stdout.
     """
     os.makedirs(os.path.dirname(dest) or ".", exist_ok=True)
-    tmp = dest + ".tmp"
+    # Unique per call, so that concurrent downloads cannot write into each other
+    tmp = f"{dest}.{uuid.uuid4().hex}.tmp"
 
     if not label:
         label = os.path.basename(dest)
-- 
2.43.0


From fa5cc0f2fed074f47a2d3800424ed91e83beda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:32 +0000
Subject: [PATCH 059/182] fix: concurrent callers can be told that a writable
 directory is not writable

---
 python/download.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index d0b5cec..01edc4c 100644
--- a/python/download.py
+++ b/python/download.py
@@ -60,7 +60,8 @@ def writable_data_dir(module_dir: str) -> str:
     """
     try:
         os.makedirs(module_dir, exist_ok=True)
-        probe = os.path.join(module_dir, ".write_probe")
+        # Unique per call, so that concurrent probes cannot remove each other's file
+        probe = os.path.join(module_dir, f".write_probe.{uuid.uuid4().hex}")
         with open(probe, "w") as f:
             f.write("")
         os.remove(probe)
-- 
2.43.0


From ad4f3270374daa0f10098cecc576523a554caa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:32 +0000
Subject: [PATCH 060/182] fix: cached archive of another file is used when its
 name starts the same

---
 python/download.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index 01edc4c..a5fe37d 100644
--- a/python/download.py
+++ b/python/download.py
@@ -320,7 +320,8 @@ def _cached_zip(dest_dir: str, record_id: str, filename: str,
     tag = f"{record_id}_{filename}"
     existing = sorted(
         (f for f in os.listdir(cache_dir)
-         if f.startswith(tag + ".") and f.endswith(".zip")),
+         if f.startswith(tag + ".") and f.endswith(".zip")
+         and "." not in f[len(tag) + 1:-len(".zip")]),
         key=lambda f: os.path.getmtime(os.path.join(cache_dir, f)),
         reverse=True,
     )
-- 
2.43.0


From 72d04dcc671e60d6928db827a04345e82e84259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:32 +0000
Subject: [PATCH 061/182] fix: extracting an archive again exposes truncated
 files

---
 python/download.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/download.py b/python/download.py
index a5fe37d..e5a2de9 100644
--- a/python/download.py
+++ b/python/download.py
@@ -39,6 +39,7 @@ import base64
 import hashlib
 import json
 import os
+import shutil
 import sys
 import urllib.error
 import urllib.request
@@ -362,7 +363,20 @@ def _safe_extract(zf: zipfile.ZipFile, dest_dir: str,
         if not target.startswith(abs_dest + os.sep) and target != abs_dest:
             raise ValueError(
                 f"Zip entry '{name}' would extract outside {dest_dir}")
-        zf.extract(name, dest_dir)
+        if zf.getinfo(name).is_dir():
+            os.makedirs(target, exist_ok=True)
+            continue
+        # Extract aside and rename, so that no reader ever sees a partial file
+        os.makedirs(os.path.dirname(target), exist_ok=True)
+        tmp = f"{target}.{uuid.uuid4().hex}.tmp"
+        try:
+            with zf.open(name) as src, open(tmp, "wb") as out:
+                shutil.copyfileobj(src, out)
+            os.replace(tmp, target)
+        except Exception:
+            if os.path.exists(tmp):
+                os.remove(tmp)
+            raise
 
 
 def ensure_zenodo_archive(record_id: str, filename: str, dest_dir: str,
-- 
2.43.0


From 576ef513292835f60920e9e0a0ff55002a125590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:55 +0000
Subject: [PATCH 062/182] fix: a bad archive in the download cache blocks every
 later attempt

---
 python/download.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/download.py b/python/download.py
index e5a2de9..84c54be 100644
--- a/python/download.py
+++ b/python/download.py
@@ -334,6 +334,11 @@ def _cached_zip(dest_dir: str, record_id: str, filename: str,
     tmp_path = os.path.join(cache_dir, f"{tag}.{os.getpid()}.tmp")
     try:
         download_file(url, tmp_path, label=filename)
+        # A bad archive in the cache would block every later attempt
+        with zipfile.ZipFile(tmp_path, "r") as zf:
+            bad = zf.testzip()
+        if bad is not None:
+            raise zipfile.BadZipFile(f"'{bad}' in {filename} is corrupt")
         sha = _sha256_file(tmp_path)
         cache_path = os.path.join(cache_dir, f"{tag}.{sha}.zip")
         os.replace(tmp_path, cache_path)
-- 
2.43.0


From 5aab88bf8b7f64de8b2b4fca22ad72d99fa7cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:08 +0000
Subject: [PATCH 063/182] fix: phi-cut shapes are crossed outside their sector
 by rays parallel to a cut face

The azimuth at t=-infinity of such a ray lies exactly on the face, so the
ray was taken to start inside the sector whichever side of the face it was
on, and the rest of the shape behind the face was reported as crossed.
---
 projects/geometry/private/PhiUtils.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/projects/geometry/private/PhiUtils.h b/projects/geometry/private/PhiUtils.h
index 2ae863d..d755062 100644
--- a/projects/geometry/private/PhiUtils.h
+++ b/projects/geometry/private/PhiUtils.h
@@ -44,7 +44,24 @@ inline bool InitialPhiState(double px, double py, double dx, double dy,
                             double start_phi, double delta_phi) {
     double rxy2_dir = dx*dx + dy*dy;
     if(rxy2_dir > 1e-20) {
-        return PhiInRange(-dx, -dy, start_phi, delta_phi);
+        // A ray parallel to one of the cut faces never crosses it, and
+        // phi(-inf) lies on that face; the side is given by the offset.
+        bool parallel[2];
+        for(int face = 0; face < 2; ++face) {
+            double alpha = start_phi + face * delta_phi;
+            double ca = std::cos(alpha), sa = std::sin(alpha);
+            parallel[face] = std::fabs(sa*dx - ca*dy) < 1e-9;
+        }
+        bool steep = parallel[0] && parallel[1] && rxy2_dir < 1e-16;
+        for(int face = 0; face < 2 && !steep; ++face) {
+            double alpha = start_phi + face * delta_phi;
+            double ca = std::cos(alpha), sa = std::sin(alpha);
+            if(parallel[face] && dx*ca + dy*sa < 0) {
+                double offset = ca*py - sa*px;
+                return face == 0 ? offset >= 0 : offset <= 0;
+            }
+        }
+        if(!steep) return PhiInRange(-dx, -dy, start_phi, delta_phi);
     }
     double rxy2_orig = px*px + py*py;
     if(rxy2_orig > 1e-20) {
-- 
2.43.0


From 20ea2c6001aa8eeef5146761eb81b6f290dca007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:08 +0000
Subject: [PATCH 064/182] fix: theta-cut spheres are crossed outside their band
 by rays parallel to a cut

The polar angle at t=-infinity of such a ray lies exactly on the cut, so a
horizontal ray above the equator was taken to start inside a lower
hemisphere and crossed its missing half.
---
 projects/geometry/private/Sphere.cxx | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/projects/geometry/private/Sphere.cxx b/projects/geometry/private/Sphere.cxx
index 0ef6133..0b80070 100644
--- a/projects/geometry/private/Sphere.cxx
+++ b/projects/geometry/private/Sphere.cxx
@@ -39,6 +39,26 @@ bool ThetaInRange(double x, double y, double z, double start_theta, double delta
     double theta = std::acos(cos_theta);
     return theta >= start_theta - 1e-9 && theta <= start_theta + delta_theta + 1e-9;
 }
+
+// Whether the ray p + t*d is inside the (infinite) theta band for t -> -infinity.
+// The limiting polar angle is that of -d; when -d lies on a boundary cone the
+// offset of the ray decides from which side the boundary is approached.
+bool InitialThetaState(double px, double py, double pz, double dx, double dy, double dz,
+                       double start_theta, double delta_theta) {
+    double rho = std::sqrt(dx*dx + dy*dy);
+    double theta = std::atan2(rho, -dz);
+    for(int face = 0; face < 2 && rho > 0; ++face) {
+        double theta0 = start_theta + face * delta_theta;
+        if(theta0 < 1e-12 || std::fabs(theta0 - M_PI) < 1e-12) continue;
+        if(std::fabs(theta - theta0) > 1e-9) continue;
+        // Component of p along increasing theta at -d
+        double toward = -dz * (-dx * px - dy * py) / rho - rho * pz;
+        // Displacement along phi only moves the direction towards the equator
+        if(toward == 0) toward = M_PI / 2.0 - theta0;
+        return face == 0 ? toward >= 0 : toward <= 0;
+    }
+    return ThetaInRange(-dx, -dy, -dz, start_theta, delta_theta);
+}
 } // anonymous namespace
 
 Sphere::Sphere() : Geometry("Sphere"), radius_(0), inner_radius_(0), start_phi_(0), delta_phi_(2.0 * M_PI), start_theta_(0), delta_theta_(M_PI), has_phi_cut_(false), has_theta_cut_(false) { RecomputeWorldAABB(); }
@@ -270,7 +290,7 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
     }
 
     if(has_theta_cut_) {
-        in_theta = ThetaInRange(-dx, -dy, -dz, start_theta_, delta_theta_);
+        in_theta = InitialThetaState(px, py, pz, dx, dy, dz, start_theta_, delta_theta_);
     }
 
     bool was_inside = in_shell && in_phi && in_theta;
-- 
2.43.0


From 72b1cab1dd1111ca2630326e468880e5c7968f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:08 +0000
Subject: [PATCH 065/182] fix: theta-cut spheres lose their crossings for
 distant ray origins

The quadratic for the boundary cone was solved about the ray origin; from
an Earth radius away the crossings were off by millimetres to metres.
---
 projects/geometry/private/Sphere.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/geometry/private/Sphere.cxx b/projects/geometry/private/Sphere.cxx
index 0b80070..c315d66 100644
--- a/projects/geometry/private/Sphere.cxx
+++ b/projects/geometry/private/Sphere.cxx
@@ -203,11 +203,14 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
                 continue;
             }
 
+            // Solve from the point of closest approach to avoid the
+            // cancellation of large terms when the ray origin is far away.
+            double qx = px - pd*dx, qy = py - pd*dy, qz = pz - pd*dz;
             double tan_t = std::tan(theta0);
             double tan2 = tan_t * tan_t;
             double A = dx*dx + dy*dy - dz*dz * tan2;
-            double B_half = px*dx + py*dy - pz*dz * tan2;
-            double C = px*px + py*py - pz*pz * tan2;
+            double B_half = qx*dx + qy*dy - qz*dz * tan2;
+            double C = qx*qx + qy*qy - qz*qz * tan2;
 
             double det = B_half * B_half - A * C;
             if(det < 0) continue;
@@ -223,7 +226,8 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
                     continue;
                 }
 
-                double hx = px + t*dx, hy = py + t*dy, hz = pz + t*dz;
+                double hx = qx + t*dx, hy = qy + t*dy, hz = qz + t*dz;
+                t -= pd;
                 if(theta0 < M_PI / 2.0 && hz < -GEOMETRY_PRECISION) continue;
                 if(theta0 > M_PI / 2.0 && hz > GEOMETRY_PRECISION) continue;
 
-- 
2.43.0


From b28384753c4367484dcef4da6e1275f5b676eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:08 +0000
Subject: [PATCH 066/182] fix: mesh bounding volumes do not contain their
 triangles

The bounds were rounded to the nearest float, so that rays near the edge of
a mesh were rejected although they cross it; at large coordinates the
missing margin is macroscopic.
---
 projects/geometry/private/GeometryMesh.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/geometry/private/GeometryMesh.cxx b/projects/geometry/private/GeometryMesh.cxx
index d2a981e..5b489eb 100644
--- a/projects/geometry/private/GeometryMesh.cxx
+++ b/projects/geometry/private/GeometryMesh.cxx
@@ -7,6 +7,7 @@
 #include <map>
 #include <set>
 #include <algorithm>
+#include <limits>
 #include <numeric>
 #include <sstream>
 
@@ -274,8 +275,9 @@ void TriangularMesh::BuildBVH() {
         for(int a = 0; a < 3; ++a) {
             float mn = (float)std::fmin(tri[0][a], std::fmin(tri[1][a], tri[2][a]));
             float mx = (float)std::fmax(tri[0][a], std::fmax(tri[1][a], tri[2][a]));
-            info[i].bounds[a] = mn;
-            info[i].bounds[a + 3] = mx;
+            // Round outwards: the conversion to float may move a bound inside the triangle
+            info[i].bounds[a] = std::nextafter(mn, -std::numeric_limits<float>::infinity());
+            info[i].bounds[a + 3] = std::nextafter(mx, std::numeric_limits<float>::infinity());
             info[i].centroid[a] = (float)((tri[0][a] + tri[1][a] + tri[2][a]) / 3.0);
         }
     }
-- 
2.43.0


From a8ef16c77c32bd5eda10cc5078ffe01b314565ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:54 +0000
Subject: [PATCH 067/182] fix: theta-cut spheres can lose their crossings on
 rays through the center

---
 projects/geometry/private/Sphere.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projects/geometry/private/Sphere.cxx b/projects/geometry/private/Sphere.cxx
index c315d66..4f79f26 100644
--- a/projects/geometry/private/Sphere.cxx
+++ b/projects/geometry/private/Sphere.cxx
@@ -190,8 +190,13 @@ std::vector<Geometry::Intersection> Sphere::ComputeIntersections(
 
     // ---- Infinite theta band boundaries (no radial/phi bounds) ----
     if(has_theta_cut_) {
+        // A ray through the center meets every boundary cone at its apex
+        bool through_apex = perp2 < GEOMETRY_PRECISION * GEOMETRY_PRECISION;
+        if(through_apex) {
+            add_hit(-pd, ThetaInRange(dx, dy, dz, start_theta_, delta_theta_), 2);
+        }
         bool theta_apex_emitted = false;
-        for(int face = 0; face < 2; ++face) {
+        for(int face = 0; face < 2 && !through_apex; ++face) {
             double theta0 = start_theta_ + face * delta_theta_;
             if(theta0 < 1e-12 || std::fabs(theta0 - M_PI) < 1e-12) continue;
 
-- 
2.43.0


From 6d181c17429b2fa0db2ce954fcbc316ad9343354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 068/182] fix: store the detector rotation with a detector
 model

---
 .../detector/public/SIREN/detector/DetectorModel.h    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/projects/detector/public/SIREN/detector/DetectorModel.h b/projects/detector/public/SIREN/detector/DetectorModel.h
index ce5dec8..28c23b5 100644
--- a/projects/detector/public/SIREN/detector/DetectorModel.h
+++ b/projects/detector/public/SIREN/detector/DetectorModel.h
@@ -120,18 +120,23 @@ public:
 
     template<class Archive>
     void serialize(Archive & archive, std::uint32_t const version) {
-        if(version == 0) {
+        if(version <= 1) {
             archive(cereal::make_nvp("Path", path_));
             archive(cereal::make_nvp("MaterialModel", materials_));
             archive(cereal::make_nvp("Sectors", sectors_));
             archive(cereal::make_nvp("SectorMap", sector_map_));
             archive(cereal::make_nvp("SectorNameMap", sector_name_map_));
             archive(cereal::make_nvp("DetectorOrigin", detector_origin_));
+            if(version >= 1) {
+                archive(cereal::make_nvp("DetectorRotation", detector_rotation_));
+            } else if(Archive::is_loading::value) {
+                detector_rotation_ = math::Quaternion(); // version 0 archives carry no rotation
+            }
             if(Archive::is_loading::value) {
                 bvh_dirty_.store(true, std::memory_order_release); // BVH will be rebuilt on next query after load
             }
         } else {
-            throw std::runtime_error("DetectorModel only supports version <= 0!");
+            throw std::runtime_error("DetectorModel only supports version <= 1!");
         }
     }
 
@@ -341,7 +346,7 @@ std::ostream& operator<<(std::ostream& oss, siren::detector::DetectorSector & bc
 
 #include "SIREN/detector/DetectorModel.tcc"
 
-CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 0);
+CEREAL_CLASS_VERSION(siren::detector::DetectorModel, 1);
 
 CEREAL_FORCE_DYNAMIC_INIT(siren_DetectorModel);
 
-- 
2.43.0


From eff626266b758e5b93df91002135e1815979d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 069/182] fix: detector models that differ in rotation are not
 equal

---
 projects/detector/private/DetectorModel.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 4fe4683..a84992a 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -185,9 +185,9 @@ DetectorModel::DetectorModel(std::string const & path, std::string const & detec
 
 bool DetectorModel::operator==(DetectorModel const & o) const {
     return
-        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_)
+        std::tie(materials_, sectors_, sector_map_, sector_name_map_, detector_origin_, detector_rotation_)
         ==
-        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_);
+        std::tie(o.materials_, o.sectors_, o.sector_map_, o.sector_name_map_, o.detector_origin_, o.detector_rotation_);
 }
 
 std::string DetectorModel::GetPath() const {
-- 
2.43.0


From 8a51ff1fe9c6f2a324a6a7dcd68a3541acc90ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 070/182] fix: a refused SetSectors leaves the detector model
 as it was

---
 projects/detector/private/DetectorModel.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index a84992a..e1046dd 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -211,20 +211,22 @@ std::vector<DetectorSector> const & DetectorModel::GetSectors() const {
 }
 
 void DetectorModel::SetSectors(std::vector<DetectorSector> const & sectors) {
-    sectors_ = sectors;
-    sector_map_.clear();
-    sector_name_map_.clear();
+    std::map<int, unsigned int> sector_map;
+    std::map<std::string, unsigned int> sector_name_map;
     for(unsigned int i=0; i<sectors.size(); ++i) {
-        if(sector_map_.count(sectors[i].level) > 0) {
+        if(sector_map.count(sectors[i].level) > 0) {
             throw(std::runtime_error("Already have a sector of that heirarchy!"));
         }
         // Enforce unique sector names for name-based lookup
-        if(sector_name_map_.count(sectors[i].name) > 0) {
+        if(sector_name_map.count(sectors[i].name) > 0) {
             throw(std::runtime_error("Already have a sector named: " + sectors[i].name));
         }
-        sector_name_map_[sectors[i].name] = i;
-        sector_map_[sectors[i].level] = i;
+        sector_name_map[sectors[i].name] = i;
+        sector_map[sectors[i].level] = i;
     }
+    sectors_ = sectors;
+    sector_map_ = std::move(sector_map);
+    sector_name_map_ = std::move(sector_name_map);
     bvh_dirty_.store(true, std::memory_order_release);
 }
 
-- 
2.43.0


From b095033f7863347185fc5bd56428ec5fd66041b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 071/182] fix: distance for a negative decay-only interaction
 depth is negative

---
 projects/detector/private/DetectorModel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index e1046dd..e0483b5 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1927,7 +1927,7 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
     // If we have only decays, avoid the sector loop
     // decay length in m
     if(targets.empty()) {
-      return interaction_depth * total_decay_length;
+      return (flip ? -interaction_depth : interaction_depth) * total_decay_length;
     }
 
     double dot = intersections.direction * direction;
-- 
2.43.0


From 5ea09f97500e5315867a9088d2bd532a1010c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 072/182] fix: a depth that ends on a sector boundary is found
 there

---
 projects/detector/private/DetectorModel.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index e0483b5..04d0043 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1080,7 +1080,8 @@ double DetectorModel::DistanceForColumnDepthFromPoint(Geometry::IntersectionList
             double start_point = std::max(std::max(offset + dot * current_intersection->distance, 0.0), offset + dot * last_point);
             double segment_length = end_point - start_point;
             DetectorSector sector = GetSector(current_intersection->hierarchy);
-            double target = column_depth - total_column_depth;
+            // rounding must not carry the target past a sector boundary
+            double target = std::max(column_depth - total_column_depth, 0.0);
             double distance = sector.density->InverseIntegral(p0+start_point*direction, direction, target, segment_length);
 
             done = distance >= 0;
@@ -1955,7 +1956,8 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
             double start_point = std::max(std::max(offset + dot * current_intersection->distance, 0.0), offset + dot * last_point);
             double segment_length = end_point - start_point;
             DetectorSector sector = GetSector(current_intersection->hierarchy);
-            double target = interaction_depth - total_interaction_depth;
+            // rounding must not carry the target past a sector boundary
+            double target = std::max(interaction_depth - total_interaction_depth, 0.0);
             // This next line is because when we evaluate the density integral,
             // we end up calculating an interaction length in units of m/cm.
             // This is a correction
-- 
2.43.0


From 202fc2f507c0185c7b0041f5a0a630914dd44c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 073/182] fix: distance for an interaction depth counts the
 decays in every sector passed

---
 projects/detector/private/DetectorModel.cxx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 04d0043..1a6d5f7 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -1967,19 +1967,31 @@ double DetectorModel::DistanceForInteractionDepthFromPoint(Geometry::Intersectio
                 interaction_depths[i] *= total_cross_sections[i];
             }
             double target_composition = accumulate(interaction_depths.begin(), interaction_depths.end(), 0.0); // cm^2 g^-1
-            target /= target_composition;
             double distance;
+            bool const decays = total_decay_length < std::numeric_limits<double>::infinity();
             // total_decay_length now in cm
-            if (total_decay_length < std::numeric_limits<double>::infinity()) {
+            if(not (target_composition > 0)) {
+              // none of the targets is in this sector: only decays contribute here
+              distance = decays ? target * total_decay_length_cm : -1;
+              if(distance > segment_length) {
+                distance = -1;
+              }
+            }
+            else if (decays) {
+              target /= target_composition;
               distance = sector.density->InverseIntegral(p0+start_point*direction, direction, 1./(total_decay_length_cm*target_composition), target, segment_length);
             }
             else {
+              target /= target_composition;
               distance = sector.density->InverseIntegral(p0+start_point*direction, direction, target, segment_length);
             }
             done = distance >= 0;
             double integral = sector.density->Integral(p0+start_point*direction, direction, segment_length); // g cm^-3 * m
             integral *= (target_composition*siren::utilities::Constants::m/siren::utilities::Constants::cm); // --> m cm^-1 --> dimensionless
             total_interaction_depth += integral;
+            if(decays) {
+                total_interaction_depth += segment_length / total_decay_length;
+            }
             if(done) {
                 total_distance = start_point + distance;
             } else {
-- 
2.43.0


From 08117026f234f92b3426d2859bb0f82e9d09c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:01 +0000
Subject: [PATCH 074/182] fix: detector sectors with equal shape and density
 are equal

---
 projects/detector/private/DetectorModel.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 1a6d5f7..3c6e111 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -109,7 +109,9 @@ public:
 }
 
 bool DetectorSector::operator==(DetectorSector const & o) const {
-    return name == o.name and material_id == o.material_id and level == o.level and geo == o.geo and density == o.density;
+    return name == o.name and material_id == o.material_id and level == o.level
+        and (geo == o.geo or (geo and o.geo and *geo == *o.geo))
+        and (density == o.density or (density and o.density and *density == *o.density));
 }
 
 std::ostream & DetectorSector::Print(std::ostream& oss) const {
-- 
2.43.0


From 10f51ebfae48c7700f1f23f6f04450dfa0eda303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:01 +0000
Subject: [PATCH 075/182] fix: distances for a depth up to a point are measured
 away from it

---
 projects/detector/private/DetectorModel.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 3c6e111..7e529bf 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -2085,11 +2085,11 @@ double DetectorModel::DistanceForColumnDepthFromPoint(DetectorPosition const & p
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(Geometry::IntersectionList const & intersections, DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::DistanceForColumnDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double column_depth) const {
-    return DistanceForColumnDepthFromPoint(ToGeo(p0), ToGeo(direction), column_depth);
+    return DistanceForColumnDepthToPoint(ToGeo(p0), ToGeo(direction), column_depth);
 }
 
 double DetectorModel::GetMassDensity(Geometry::IntersectionList const & intersections, DetectorPosition const & p0,  std::set<siren::dataclasses::ParticleType> targets) const {
@@ -2169,14 +2169,14 @@ double DetectorModel::DistanceForInteractionDepthToPoint(Geometry::IntersectionL
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(intersections, ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 double DetectorModel::DistanceForInteractionDepthToPoint(DetectorPosition const & p0, DetectorDirection const & direction, double interaction_depth,
         std::vector<siren::dataclasses::ParticleType> const & targets,
         std::vector<double> const & total_cross_sections,
         double const & total_decay_length) const {
-    return DistanceForInteractionDepthFromPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
+    return DistanceForInteractionDepthToPoint(ToGeo(p0), ToGeo(direction), interaction_depth, targets, total_cross_sections, total_decay_length);
 }
 
 //////////////////////////////////////////////////////////
-- 
2.43.0


From 043387f9316ff49af0bbf3edb239bb2297a0ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:36 +0000
Subject: [PATCH 076/182] fix: a path forgets the crossings of its previous
 detector model

---
 projects/detector/private/Path.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index a6dab82..40c3464 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -141,6 +141,7 @@ void Path::SetDetectorModel(std::shared_ptr<const DetectorModel> detector_model)
     }
     detector_model_ = detector_model;
     set_detector_model_ = true;
+    set_intersections_ = false;
     UpdatePoints();
 }
 
-- 
2.43.0


From 94d0efb16101d6e603ff3083235ed45a1ab3d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:36 +0000
Subject: [PATCH 077/182] fix: clipping a path that misses the detector leaves
 it empty

---
 projects/detector/private/Path.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index 40c3464..a395f00 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -303,6 +303,10 @@ void Path::ClipToOuterBounds() {
             last_inf_ = IsInfinite(last_point_); // re-check infinite
         }
         if(clip) {
+            if((math::Vector3D(last_point_) - math::Vector3D(first_point_)) * direction_ < 0) {
+                // The path lies entirely outside of the bounds
+                last_point_ = first_point_;
+            }
             distance_ = (last_point_ - first_point_)->magnitude();
         }
         set_det_points_ = false;
-- 
2.43.0


From 6bade335a5fccf3a455154543b7cd552b2186550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:36 +0000
Subject: [PATCH 078/182] fix: a path with an infinite first point is crossed
 from its last point

---
 projects/detector/private/Path.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/Path.cxx b/projects/detector/private/Path.cxx
index a395f00..6303fb2 100644
--- a/projects/detector/private/Path.cxx
+++ b/projects/detector/private/Path.cxx
@@ -266,7 +266,8 @@ void Path::SetIntersections(geometry::Geometry::IntersectionList const & interse
 void Path::ComputeIntersections() {
     EnsureDetectorModel();
     EnsurePoints();
-    intersections_ = detector_model_->GetIntersections(first_point_, direction_);
+    RequireOneFinite();
+    intersections_ = detector_model_->GetIntersections(first_inf_ ? last_point_ : first_point_, direction_);
     set_intersections_ = true;
 }
 
-- 
2.43.0


From 515f030c87e9548589af3b08595df287ae712964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 079/182] fix: ColumnDepthPositionDistribution samples with the
 decay length of the moving particle

---
 .../primary/vertex/ColumnDepthPositionDistribution.cxx        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 5163545..90f451e 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -75,9 +75,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> ColumnDepthPositionDist
     std::vector<siren::dataclasses::ParticleType> targets(possible_targets.begin(), possible_targets.end());
     std::vector<double> total_cross_sections(targets.size(), 0.0);
     siren::dataclasses::InteractionRecord fake_record;
-    fake_record.signature.primary_type = record.type;
-    fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    record.FinalizeAvailable(fake_record);
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
-- 
2.43.0


From 5f45a25498a9903238fc639fa2a64e05ab6424e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 080/182] fix: RangePositionDistribution samples with the decay
 length of the moving particle

---
 .../private/primary/vertex/RangePositionDistribution.cxx      | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index c7d31cc..cff7d84 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -75,9 +75,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> RangePositionDistributi
     std::vector<siren::dataclasses::ParticleType> targets(possible_targets.begin(), possible_targets.end());
     std::vector<double> total_cross_sections(targets.size(), 0.0);
     siren::dataclasses::InteractionRecord fake_record;
-    fake_record.signature.primary_type = record.type;
-    fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    record.FinalizeAvailable(fake_record);
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
-- 
2.43.0


From 714a3595755a6e2fcfc0fff3868ac63dc85030b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 081/182] fix: PointSourcePositionDistribution samples with the
 decay length of the moving particle

---
 .../primary/vertex/PointSourcePositionDistribution.cxx        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index 9bde125..46e6759 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -61,9 +61,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PointSourcePositionDist
     std::vector<siren::dataclasses::ParticleType> targets(possible_targets.begin(), possible_targets.end());
     std::vector<double> total_cross_sections(targets.size(), 0.0);
     siren::dataclasses::InteractionRecord fake_record;
-    fake_record.signature.primary_type = record.type;
-    fake_record.primary_mass = record.GetMass();
-    fake_record.primary_momentum[0] = record.GetEnergy();
+    record.FinalizeAvailable(fake_record);
     double total_decay_length = interactions->TotalDecayLengthAllFinalStates(fake_record);
     for(unsigned int i=0; i<targets.size(); ++i) {
         siren::dataclasses::ParticleType const & target = targets[i];
-- 
2.43.0


From c4a9f95db2455e4b2d46bde1016949d892ebe76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 082/182] fix: ColumnDepthPositionDistribution density is zero,
 not NaN, where nothing can interact

---
 .../private/primary/vertex/ColumnDepthPositionDistribution.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 90f451e..5e922a6 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -159,6 +159,9 @@ double ColumnDepthPositionDistribution::GenerationProbability(std::shared_ptr<si
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
-- 
2.43.0


From 5e06c7330289d2cb192f00fec0c77c5ad2ceab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 083/182] fix: RangePositionDistribution density is zero, not
 NaN, where nothing can interact

---
 .../private/primary/vertex/RangePositionDistribution.cxx       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index cff7d84..1c99581 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -149,6 +149,9 @@ double RangePositionDistribution::GenerationProbability(std::shared_ptr<siren::d
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
-- 
2.43.0


From 17a4e5f2ce464188b5570ff0d523766302d5d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 084/182] fix: PointSourcePositionDistribution density is zero,
 not NaN, where nothing can interact

---
 .../private/primary/vertex/PointSourcePositionDistribution.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index 46e6759..a2bed76 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -130,6 +130,9 @@ double PointSourcePositionDistribution::GenerationProbability(std::shared_ptr<si
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
-- 
2.43.0


From edaaef0cac931d1530048c015ed7e809f062eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 085/182] fix: FixedTargetPositionDistribution density is zero,
 not NaN, where nothing can interact

---
 .../private/primary/vertex/FixedTargetPositionDistribution.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index c18aec9..9ab7ac8 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -182,6 +182,9 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
-- 
2.43.0


From 56b2931ee08d82350094383b8740078d3709e162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 086/182] fix: SecondaryBoundedVertexDistribution density is
 zero, not NaN, where nothing can interact

---
 .../secondary/vertex/SecondaryBoundedVertexDistribution.cxx    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index 0427c8c..414f095 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -168,6 +168,9 @@ double SecondaryBoundedVertexDistribution::GenerationProbability(std::shared_ptr
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
-- 
2.43.0


From 5a50d5736a0141a110654ece541f08db0449728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 087/182] fix: SecondaryPhysicalVertexDistribution density is
 zero, not NaN, where nothing can interact

---
 .../secondary/vertex/SecondaryPhysicalVertexDistribution.cxx   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
index 0a1913f..35fc780 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
@@ -130,6 +130,9 @@ double SecondaryPhysicalVertexDistribution::GenerationProbability(std::shared_pt
 
     double interaction_density = detector_model->GetInteractionDensity(path.GetIntersections(), DetectorPosition(vertex), targets, total_cross_sections, total_decay_length);
 
+    if(total_interaction_depth <= 0)
+        return 0.0;
+
     double prob_density;
     if(total_interaction_depth < 1e-6) {
         prob_density = interaction_density / total_interaction_depth;
-- 
2.43.0


From 0d293f386247f458a50fc134aad14caa55b97409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 088/182] fix: FixedTargetPositionDistribution density is zero
 for lines that miss the target

---
 .../primary/vertex/FixedTargetPositionDistribution.cxx        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index 9ab7ac8..ec89f4d 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -133,6 +133,10 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
     std::vector<siren::geometry::Geometry::Intersection> intersections = cylinder.Intersections(vertex, dir);
     siren::detector::DetectorModel::SortIntersections(intersections);
 
+    // the particle cannot have been produced in the target
+    if(intersections.empty())
+        return 0.0;
+
     // now sample from fiducial volume to get interaction vertex
     siren::math::Vector3D endcap_0 = intersections.back().position;
     siren::math::Vector3D endcap_1 = endcap_0 + max_length * dir;
-- 
2.43.0


From 8ca858e0732eff8af73a90ec7ed5c94b4d6b7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 089/182] fix: FixedTargetPositionDistribution counts the chord
 inside a hollow target only

---
 .../vertex/FixedTargetPositionDistribution.cxx       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index ec89f4d..6699963 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -197,13 +197,13 @@ double FixedTargetPositionDistribution::GenerationProbability(std::shared_ptr<si
     }
 
     // now time to calculate the chord length through the target cylinder* volume
-    double length = 0.0;
-    if(intersections.size() == 0) {
-    } else if(intersections.size() >= 2) {
-        siren::math::Vector3D delta_intersections = intersections.back().position - intersections.front().position;
-        length = delta_intersections.magnitude();
-    } else {
+    if(intersections.size() < 2)
         throw std::runtime_error("Only found one cylinder intersection!");
+    // only the parts inside the target count, not the hole of a hollow one
+    double length = 0.0;
+    for(unsigned int i=0; i+1<intersections.size(); ++i) {
+        if(intersections[i].entering)
+            length += intersections[i+1].distance - intersections[i].distance;
     }
 
     const double outer_radius = cylinder.GetRadius();
-- 
2.43.0


From 3c1c4c8326b04075494dbbd609e9930a9fa40d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:35 +0000
Subject: [PATCH 090/182] fix: DecayRangePositionDistribution keeps precision
 for long decay lengths

---
 .../private/primary/vertex/DecayRangePositionDistribution.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
index 737f858..9705562 100644
--- a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
@@ -50,7 +50,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> DecayRangePositionDistr
 
     double y = rand->Uniform();
     double total_distance = path.GetDistance();
-    double dist = -decay_length * log(y * (exp(-total_distance/decay_length) - 1) + 1);
+    double dist = -decay_length * std::log1p(y * std::expm1(-total_distance/decay_length));
 
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
@@ -82,7 +82,7 @@ double DecayRangePositionDistribution::GenerationProbability(std::shared_ptr<sir
     double total_distance = path.GetDistance();
     double dist = siren::math::scalar_product(path.GetDirection(), vertex - path.GetFirstPoint());
 
-    double prob_density = exp(-dist / decay_length) / (decay_length * (1.0 - exp(-total_distance / decay_length))); // m^-1
+    double prob_density = exp(-dist / decay_length) / (decay_length * -std::expm1(-total_distance / decay_length)); // m^-1
     prob_density /= (M_PI * radius * radius); // (m^-1 * m^-2) -> m^-3
     return prob_density;
 }
-- 
2.43.0


From 7585f2228aada9e1189b928c6d4cd0fa88292561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 091/182] fix: sampled vertices stay within the bounds of their
 path

---
 .../private/primary/vertex/ColumnDepthPositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/FixedTargetPositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/PointSourcePositionDistribution.cxx  | 2 +-
 .../private/primary/vertex/PrimaryBoundedVertexDistribution.cxx | 2 +-
 .../primary/vertex/PrimaryPhysicalVertexDistribution.cxx        | 2 +-
 .../private/primary/vertex/RangePositionDistribution.cxx        | 2 +-
 .../secondary/vertex/SecondaryBoundedVertexDistribution.cxx     | 2 +-
 .../secondary/vertex/SecondaryPhysicalVertexDistribution.cxx    | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
index 5e922a6..18431d6 100644
--- a/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/ColumnDepthPositionDistribution.cxx
@@ -100,7 +100,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> ColumnDepthPositionDist
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
diff --git a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
index 6699963..96d26f5 100644
--- a/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/FixedTargetPositionDistribution.cxx
@@ -115,7 +115,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> FixedTargetPositionDist
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     return {init_pos, vertex};
diff --git a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
index a2bed76..80aab29 100644
--- a/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PointSourcePositionDistribution.cxx
@@ -86,7 +86,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PointSourcePositionDist
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
diff --git a/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx b/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
index 4c2746a..cc559b1 100644
--- a/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PrimaryBoundedVertexDistribution.cxx
@@ -107,7 +107,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PrimaryBoundedVertexDis
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     return {pos, vertex};
diff --git a/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx b/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx
index b1a3654..577aad1 100644
--- a/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/PrimaryPhysicalVertexDistribution.cxx
@@ -89,7 +89,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> PrimaryPhysicalVertexDi
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     return {pos, vertex};
diff --git a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
index 1c99581..274dd43 100644
--- a/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/RangePositionDistribution.cxx
@@ -99,7 +99,7 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> RangePositionDistributi
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D init_pos = path.GetFirstPoint();
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
diff --git a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
index 414f095..44541dd 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryBoundedVertexDistribution.cxx
@@ -108,7 +108,7 @@ void SecondaryBoundedVertexDistribution::SampleVertex(std::shared_ptr<siren::uti
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     double length = (vertex - pos) * dir;
diff --git a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
index 35fc780..2bac90c 100644
--- a/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
+++ b/projects/distributions/private/secondary/vertex/SecondaryPhysicalVertexDistribution.cxx
@@ -88,7 +88,7 @@ void SecondaryPhysicalVertexDistribution::SampleVertex(std::shared_ptr<siren::ut
         traversed_interaction_depth = -log(y * exp_m_total_interaction_depth + (1.0 - y));
     }
 
-    double dist = path.GetDistanceFromStartAlongPath(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
+    double dist = path.GetDistanceFromStartInBounds(traversed_interaction_depth, targets, total_cross_sections, total_decay_length);
     siren::math::Vector3D vertex = path.GetFirstPoint() + dist * path.GetDirection();
 
     double length = (vertex - pos) * dir;
-- 
2.43.0


From f48636f4ef66a0b5440566371d5b2b2c66b335a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 092/182] fix: DecayRangePositionDistribution refuses an empty
 path

---
 .../primary/vertex/DecayRangePositionDistribution.cxx     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
index 9705562..24c613d 100644
--- a/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
+++ b/projects/distributions/private/primary/vertex/DecayRangePositionDistribution.cxx
@@ -15,6 +15,7 @@
 #include "SIREN/distributions/primary/vertex/RangeFunction.h"
 #include "SIREN/math/Quaternion.h"
 #include "SIREN/math/Vector3D.h"
+#include "SIREN/utilities/Errors.h"
 #include "SIREN/utilities/Random.h"
 
 namespace siren {
@@ -48,8 +49,11 @@ std::tuple<siren::math::Vector3D, siren::math::Vector3D> DecayRangePositionDistr
     path.ExtendFromStartByDistance(decay_length * range_function->Multiplier());
     path.ClipToOuterBounds();
 
-    double y = rand->Uniform();
     double total_distance = path.GetDistance();
+    if(total_distance == 0) {
+        throw(siren::utilities::InjectionFailure("No available interactions along path!"));
+    }
+    double y = rand->Uniform();
     double dist = -decay_length * std::log1p(y * std::expm1(-total_distance/decay_length));
 
     siren::math::Vector3D init_pos = path.GetFirstPoint();
@@ -80,6 +84,8 @@ double DecayRangePositionDistribution::GenerationProbability(std::shared_ptr<sir
         return 0.0;
 
     double total_distance = path.GetDistance();
+    if(total_distance == 0)
+        return 0.0;
     double dist = siren::math::scalar_product(path.GetDirection(), vertex - path.GetFirstPoint());
 
     double prob_density = exp(-dist / decay_length) / (decay_length * -std::expm1(-total_distance / decay_length)); // m^-1
-- 
2.43.0


From c93690efa85351bf511071c0a3eb976ddbcc2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:58 +0000
Subject: [PATCH 093/182] fix: only 10LZZZAAAI codes are nuclei

The pseudo particle type Decay was read as a nucleus of ten neutrons, so the
record of every decay carried a target mass of 9.47 GeV.
---
 projects/detector/private/MaterialModel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/private/MaterialModel.cxx b/projects/detector/private/MaterialModel.cxx
index 02db4b6..ea4898d 100644
--- a/projects/detector/private/MaterialModel.cxx
+++ b/projects/detector/private/MaterialModel.cxx
@@ -421,7 +421,7 @@ int MaterialModel::GetNucleonContent(int code, int & strange_count, int & neutro
     char buf[CHAR_BUF_SIZE];
     snprintf(buf, CHAR_BUF_SIZE, "%d", code);
     int nread = sscanf(buf, "%2d%1d%3d%3d%1d", &prefix, &strange_count, &proton_count, &nucleon_count, &excitation);
-    if (nread != 5) {
+    if (nread != 5 or prefix != 10) {
         throw std::runtime_error("Failed to convert nuclear pdg to 10LZZZAAAI "
                 "prefix "+std::to_string(prefix)+", L "+std::to_string(strange_count)+", Z "+std::to_string(proton_count)+", A "+std::to_string(nucleon_count)+", I "+std::to_string(excitation));
     }
-- 
2.43.0


From 1e78da53bdd0d9b02483888c1244dd70fb78f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 094/182] fix: a random word of zero selects a possible channel

With r == 0 the first channel was taken even if its rate is zero, and a decay
was looked up among the (possibly empty) cross sections.
---
 projects/injection/private/Injector.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 73ceba3..f1e353f 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -184,7 +184,6 @@ void Injector::SampleCrossSection(siren::dataclasses::InteractionRecord & record
     std::set<siren::dataclasses::ParticleType> available_targets = detector_model->GetAvailableTargets(intersections, DetectorPosition(record.interaction_vertex));
 
     double total_prob = 0.0;
-    double xsec_prob = 0.0;
     std::vector<double> probs;
     std::vector<siren::dataclasses::ParticleType> matching_targets;
     std::vector<siren::dataclasses::InteractionSignature> matching_signatures;
@@ -208,7 +207,6 @@ void Injector::SampleCrossSection(siren::dataclasses::InteractionRecord & record
                         // Add total cross section times density to the total prob
                         fake_prob = target_density * cross_section->TotalCrossSection(fake_record);
                         total_prob += fake_prob;
-                        xsec_prob += fake_prob;
                         // Add total prob to probs
                         probs.push_back(total_prob);
                         // Add target and cross section pointer to the lists
@@ -243,7 +241,7 @@ void Injector::SampleCrossSection(siren::dataclasses::InteractionRecord & record
     double r = random->Uniform(0, total_prob);
     // Choose the target and cross section
     unsigned int index = 0;
-    for(; (index+1 < probs.size()) and (r > probs[index]); ++index) {}
+    for(; (index+1 < probs.size()) and (r >= probs[index]); ++index) {}
     record.signature.target_type = matching_targets[index];
     record.signature = matching_signatures[index];
     double selected_prob = 0.0;
@@ -265,7 +263,7 @@ void Injector::SampleCrossSection(siren::dataclasses::InteractionRecord & record
     // the vertex position is fixed; only the interaction time shifts, and
     // daughters inherit it through xsec_record.Finalize's back-sync.
     double proposed_time;
-    if(r <= xsec_prob) {
+    if(index < matching_cross_sections.size()) {
         std::shared_ptr<siren::interactions::CrossSection> const & selected = matching_cross_sections[index];
         selected->SampleFinalState(xsec_record, random);
         proposed_time = selected->SampleInteractionTime(xsec_record, random);
-- 
2.43.0


From 2cca7e3cc18a4c144097a0c81303a502589ab05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 095/182] fix: ResetInjectedEvents lets the injector inject its
 events again

The attempts were kept, so GenerateEvent still refused after a reset.
---
 projects/injection/private/Injector.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index f1e353f..2a63a40 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -490,6 +490,7 @@ unsigned int Injector::EventsToInject() const {
 
 void Injector::ResetInjectedEvents() {
     injected_events = 0;
+    injection_attempts = 0;
 }
 
 Injector::operator bool() const {
-- 
2.43.0


From 6a246347ec248322208188af13085d91f0a809c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 096/182] fix: an injector without attempts left does not claim
 to have more events

After a failed attempt a loop over the injector ended in an exception.
---
 projects/injection/private/Injector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 2a63a40..62ad072 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -494,7 +494,7 @@ void Injector::ResetInjectedEvents() {
 }
 
 Injector::operator bool() const {
-    return events_to_inject == 0 or injected_events < events_to_inject;
+    return injection_attempts < events_to_inject;
 }
 
 void Injector::SaveInjector(std::string const & filename) const {
-- 
2.43.0


From 12cdd21565e1138e9cd4dd4f7a3aef84547166d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 097/182] fix: loading an injector replaces its secondary
 processes

They were added to the ones already there.
---
 projects/injection/public/SIREN/injection/Injector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/projects/injection/public/SIREN/injection/Injector.h b/projects/injection/public/SIREN/injection/Injector.h
index 4cdd63f..7c92b62 100644
--- a/projects/injection/public/SIREN/injection/Injector.h
+++ b/projects/injection/public/SIREN/injection/Injector.h
@@ -145,9 +145,7 @@ public:
             archive(::cereal::make_nvp("PrimaryProcess", _primary_process));
             archive(::cereal::make_nvp("SecondaryProcesses", _secondary_processes));
             SetPrimaryProcess(_primary_process);
-            for(auto secondary_process : _secondary_processes) {
-                AddSecondaryProcess(secondary_process);
-            }
+            SetSecondaryProcesses(_secondary_processes);
         } else {
             throw std::runtime_error("Injector only supports version <= 0!");
         }
-- 
2.43.0


From 814e0c0e9f6e05bdf7b38a31cb8217a2f1f7d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:59 +0000
Subject: [PATCH 098/182] fix: SaveInjector reports an incomplete file

---
 projects/injection/private/Injector.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 62ad072..3ac0b3a 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -501,6 +501,10 @@ void Injector::SaveInjector(std::string const & filename) const {
     std::ofstream os(filename, std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     this->save(archive,0);
+    // Buffered data may only reach the file system here, so check that it did
+    os.close();
+    if(not os)
+        throw std::runtime_error("Failed to write the injector to \"" + filename + "\"!");
 }
 
 void Injector::LoadInjector(std::string const & filename) {
-- 
2.43.0


From 89678d6098ad2bd3b9abe02b6fb47fd0f36db0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:59 +0000
Subject: [PATCH 099/182] fix: SaveWeighter reports an incomplete file

---
 projects/injection/private/Weighter.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 53f8d49..09bc363 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -211,6 +211,10 @@ void Weighter::SaveWeighter(std::string const & filename) const {
     std::ofstream os(filename+".siren_weighter", std::ios::binary);
     ::cereal::BinaryOutputArchive archive(os);
     this->save(archive,0);
+    // Buffered data may only reach the file system here, so check that it did
+    os.close();
+    if(not os)
+        throw std::runtime_error("Failed to write the weighter to \"" + filename + ".siren_weighter\"!");
 }
 
 void Weighter::LoadWeighter(std::string const & filename) {
-- 
2.43.0


From e401f99c1846c0e42e674681ca6427df47ba73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:59 +0000
Subject: [PATCH 100/182] fix: a process without a vertex distribution is an
 error, not a successful exit

The whole program was ended with exit status 0.
---
 projects/injection/private/Injector.cxx | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/projects/injection/private/Injector.cxx b/projects/injection/private/Injector.cxx
index 3ac0b3a..f686a40 100644
--- a/projects/injection/private/Injector.cxx
+++ b/projects/injection/private/Injector.cxx
@@ -110,25 +110,13 @@ std::shared_ptr<distributions::SecondaryVertexPositionDistribution> Injector::Fi
 }
 
 void Injector::SetPrimaryProcess(std::shared_ptr<siren::injection::PrimaryInjectionProcess> primary) {
-    std::shared_ptr<distributions::VertexPositionDistribution> vtx_dist;
-    try {
-        vtx_dist = FindPrimaryVertexDistribution(primary);
-    } catch(siren::utilities::AddProcessFailure const & e) {
-        std::cerr << e.what() << std::endl;
-        exit(0);
-    }
+    std::shared_ptr<distributions::VertexPositionDistribution> vtx_dist = FindPrimaryVertexDistribution(primary);
     primary_process = primary;
     primary_position_distribution = vtx_dist;
 }
 
 void Injector::AddSecondaryProcess(std::shared_ptr<siren::injection::SecondaryInjectionProcess> secondary) {
-    std::shared_ptr<distributions::SecondaryVertexPositionDistribution> vtx_dist;
-    try {
-        vtx_dist = FindSecondaryVertexDistribution(secondary);
-    } catch(siren::utilities::AddProcessFailure const & e) {
-        std::cerr << e.what() << std::endl;
-        exit(0);
-    }
+    std::shared_ptr<distributions::SecondaryVertexPositionDistribution> vtx_dist = FindSecondaryVertexDistribution(secondary);
     secondary_processes.push_back(secondary);
     secondary_position_distributions.push_back(vtx_dist);
     secondary_process_map.insert({secondary->GetPrimaryType(), secondary});
-- 
2.43.0


From adc6d689cbd47c3c9b99561437cee2c5ccee2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:59 +0000
Subject: [PATCH 101/182] fix: a failed load leaves the injector as it was

---
 .../injection/public/SIREN/injection/Injector.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/projects/injection/public/SIREN/injection/Injector.h b/projects/injection/public/SIREN/injection/Injector.h
index 7c92b62..82d79ea 100644
--- a/projects/injection/public/SIREN/injection/Injector.h
+++ b/projects/injection/public/SIREN/injection/Injector.h
@@ -134,16 +134,25 @@ public:
     template<typename Archive>
     void load(Archive & archive, std::uint32_t const version) {
         if(version == 0) {
+            unsigned int _events_to_inject;
+            unsigned int _injection_attempts;
+            unsigned int _injected_events;
+            std::shared_ptr<siren::detector::DetectorModel> _detector_model;
             std::shared_ptr<injection::PrimaryInjectionProcess> _primary_process;
             std::vector<std::shared_ptr<injection::SecondaryInjectionProcess>> _secondary_processes;
 
-            archive(::cereal::make_nvp("EventsToInject", events_to_inject));
-            archive(::cereal::make_nvp("InjectionAttempts", injection_attempts));
-            archive(::cereal::make_nvp("InjectedEvents", injected_events));
-            archive(::cereal::make_nvp("DetectorModel", detector_model));
+            archive(::cereal::make_nvp("EventsToInject", _events_to_inject));
+            archive(::cereal::make_nvp("InjectionAttempts", _injection_attempts));
+            archive(::cereal::make_nvp("InjectedEvents", _injected_events));
+            archive(::cereal::make_nvp("DetectorModel", _detector_model));
             // archive(::cereal::make_nvp("SIRENRandom", random));
             archive(::cereal::make_nvp("PrimaryProcess", _primary_process));
             archive(::cereal::make_nvp("SecondaryProcesses", _secondary_processes));
+            // Only a complete archive changes the injector
+            events_to_inject = _events_to_inject;
+            injection_attempts = _injection_attempts;
+            injected_events = _injected_events;
+            detector_model = _detector_model;
             SetPrimaryProcess(_primary_process);
             SetSecondaryProcesses(_secondary_processes);
         } else {
-- 
2.43.0


From bd0acadd09ca2eda920825a637790ad59c23e7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:39 +0000
Subject: [PATCH 102/182] fix: injectors that cannot generate an event do not
 spoil its weight

Outside of the injection bounds of one injector the physical probability is not
defined, and the weight of events of the other injectors became NaN.
---
 projects/injection/private/Weighter.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 09bc363..8216c8d 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -134,6 +134,9 @@ double Weighter::EventWeight(siren::dataclasses::InteractionTree const & tree) c
                 }
             }
         }
+        // An injector that cannot generate this event does not contribute
+        if(generation_probability == 0)
+            continue;
         inv_weight += generation_probability / physical_probability;
     }
     return 1./inv_weight;
-- 
2.43.0


From 321b7e985d48adc6bf7cd5a0cd115c1e955d949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:39 +0000
Subject: [PATCH 103/182] fix: events that cannot happen have weight zero, not
 NaN

---
 projects/injection/public/SIREN/injection/Weighter.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/injection/public/SIREN/injection/Weighter.tcc b/projects/injection/public/SIREN/injection/Weighter.tcc
index 078c886..1facb48 100644
--- a/projects/injection/public/SIREN/injection/Weighter.tcc
+++ b/projects/injection/public/SIREN/injection/Weighter.tcc
@@ -195,6 +195,9 @@ double ProcessWeighter<ProcessType>::NormalizedPositionProbability(std::tuple<si
     double traversed_interaction_depth = detector_model->GetInteractionDepthInCGS(intersections, DetectorPosition(std::get<0>(bounds)), DetectorPosition(interaction_vertex), targets, total_cross_sections, total_decay_length);
     double interaction_density = detector_model->GetInteractionDensity(intersections, DetectorPosition(interaction_vertex), targets, total_cross_sections, total_decay_length); //units of m^-1
 
+    if(total_interaction_depth <= 0)
+        return 0.0; // nothing can interact between the bounds
+
     double prob_density;
     // This is equivalent to equation 11 of the SIREN paper
     // Reach out to the authors if you disagree and we can send the derivation :)
-- 
2.43.0


From 53597eda205cca5de902fdac4d5e2cc84e7bf514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:39 +0000
Subject: [PATCH 104/182] fix: a weighter with unmatched secondary processes
 covers all its injectors

Initialize returned early, and EventWeight then read past the end of the lists
of process weighters.
---
 projects/injection/private/Weighter.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projects/injection/private/Weighter.cxx b/projects/injection/private/Weighter.cxx
index 8216c8d..84fc19a 100644
--- a/projects/injection/private/Weighter.cxx
+++ b/projects/injection/private/Weighter.cxx
@@ -77,14 +77,13 @@ void Weighter::Initialize() {
             } catch(const std::out_of_range& oor) {
                 std::cout << "Out of Range error: " << oor.what() << '\n';
                 std::cout << "Initialization Incomplete: Particle " <<  sec_phys_process->GetPrimaryType() << " does not exist in injector\n";
-                return;
             }
         }
         if(injector_sec_process_weighter_map.size() != injector_sec_process_map.size()) {
             std::cout << "Initialization Incomplete: No one-to-one mapping between injection and physical distributions for injector " << i << "\n";
-            return;
         }
         secondary_process_weighter_maps.push_back(injector_sec_process_weighter_map);
+        i += 1;
     }
 }
 
-- 
2.43.0


From f6154bcef85e52379349d194a04848c48694fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:50 +0000
Subject: [PATCH 105/182] fix: a lone decimal point in a GDML expression is an
 error, not an endless loop

---
 projects/detector/private/gdml/GDMLExpression.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/detector/private/gdml/GDMLExpression.cxx b/projects/detector/private/gdml/GDMLExpression.cxx
index ae8791a..a30926a 100644
--- a/projects/detector/private/gdml/GDMLExpression.cxx
+++ b/projects/detector/private/gdml/GDMLExpression.cxx
@@ -113,6 +113,9 @@ static std::vector<Token> Tokenize(std::string const & s, std::unordered_map<std
         if(std::isdigit(static_cast<unsigned char>(c)) || c == '.') {
             char* end = nullptr;
             double val = std::strtod(s.c_str() + i, &end);
+            if(end == s.c_str() + i) {
+                throw std::runtime_error("GDML expression error: malformed number in '" + expr + "'");
+            }
             Token t; t.kind = TokenKind::NUMBER; t.value = val;
             tokens.push_back(t);
             i += (end - (s.c_str() + i)); continue;
-- 
2.43.0


From 78afcef24182b8f186760b7ce990bb758fc58568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:50 +0000
Subject: [PATCH 106/182] fix: numbers out of range inside a GDML expression
 are an error

---
 projects/detector/private/gdml/GDMLExpression.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/detector/private/gdml/GDMLExpression.cxx b/projects/detector/private/gdml/GDMLExpression.cxx
index a30926a..97bbb74 100644
--- a/projects/detector/private/gdml/GDMLExpression.cxx
+++ b/projects/detector/private/gdml/GDMLExpression.cxx
@@ -116,6 +116,9 @@ static std::vector<Token> Tokenize(std::string const & s, std::unordered_map<std
             if(end == s.c_str() + i) {
                 throw std::runtime_error("GDML expression error: malformed number in '" + expr + "'");
             }
+            if(!std::isfinite(val)) {
+                throw std::runtime_error("GDML expression error: numeric value out of range in '" + expr + "'");
+            }
             Token t; t.kind = TokenKind::NUMBER; t.value = val;
             tokens.push_back(t);
             i += (end - (s.c_str() + i)); continue;
-- 
2.43.0


From ea89de82dbea1f2393c9fbe80d29a7078a31280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:50 +0000
Subject: [PATCH 107/182] fix: malformed GDML expressions are errors

---
 .../detector/private/gdml/GDMLExpression.cxx   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLExpression.cxx b/projects/detector/private/gdml/GDMLExpression.cxx
index 97bbb74..885514d 100644
--- a/projects/detector/private/gdml/GDMLExpression.cxx
+++ b/projects/detector/private/gdml/GDMLExpression.cxx
@@ -247,8 +247,17 @@ double EvalExpression(std::string const & expr, std::unordered_map<std::string,
     output.reserve(tokens.size());
     op_stack.reserve(tokens.size());
 
+    // Operands and operators must alternate; without this check expressions
+    // such as "1 2 +" or "2 sin()" would evaluate to a number.
+    bool expect_operand = true;
     for(size_t i = 0; i < tokens.size(); ++i) {
         Token const & tok = tokens[i];
+        bool starts_operand = tok.kind == TokenKind::NUMBER || tok.kind == TokenKind::FUNC
+            || tok.kind == TokenKind::LPAREN || tok.kind == TokenKind::UNARY_NEG;
+        if(starts_operand != expect_operand) {
+            throw std::runtime_error("GDML expression error: malformed expression '" + expr + "'");
+        }
+        expect_operand = !(tok.kind == TokenKind::NUMBER || tok.kind == TokenKind::RPAREN);
         switch(tok.kind) {
         case TokenKind::NUMBER:
             output.push_back(tok);
@@ -261,10 +270,10 @@ double EvalExpression(std::string const & expr, std::unordered_map<std::string,
                 output.push_back(op_stack.back());
                 op_stack.pop_back();
             }
-            if(!op_stack.empty() && op_stack.size() >= 2) {
-                Token & func_below = op_stack[op_stack.size() - 2];
-                if(func_below.kind == TokenKind::FUNC) func_below.argc++;
+            if(op_stack.size() < 2 || op_stack[op_stack.size() - 2].kind != TokenKind::FUNC) {
+                throw std::runtime_error("GDML expression error: comma outside of a function call in '" + expr + "'");
             }
+            op_stack[op_stack.size() - 2].argc++;
             break;
         case TokenKind::UNARY_NEG:
         case TokenKind::OP: {
@@ -305,6 +314,9 @@ double EvalExpression(std::string const & expr, std::unordered_map<std::string,
             break;
         }
     }
+    if(expect_operand) {
+        throw std::runtime_error("GDML expression error: malformed expression '" + expr + "'");
+    }
     while(!op_stack.empty()) {
         if(op_stack.back().kind == TokenKind::LPAREN) {
             throw std::runtime_error("GDML expression error: mismatched parentheses in '" + expr + "'");
-- 
2.43.0


From 8ccd2f78775bb3ee305c3c589e837ed20676b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:57 +0000
Subject: [PATCH 108/182] fix: inf and nan are not numbers of a GDML expression

---
 projects/detector/private/gdml/GDMLExpression.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLExpression.cxx b/projects/detector/private/gdml/GDMLExpression.cxx
index 885514d..fdf33aa 100644
--- a/projects/detector/private/gdml/GDMLExpression.cxx
+++ b/projects/detector/private/gdml/GDMLExpression.cxx
@@ -81,6 +81,13 @@ double EvalExpression(std::string const & expr, std::unordered_map<std::string,
                       std::unordered_map<std::string, std::pair<int, std::vector<double>>> const & matrices,
                       int depth);
 
+// strtod also reads "inf", "nan" and "infinity"; in GDML these are names.
+static bool LooksNumeric(const char* s) {
+    while(std::isspace(static_cast<unsigned char>(*s))) ++s;
+    if(*s == '+' || *s == '-') ++s;
+    return std::isdigit(static_cast<unsigned char>(*s)) || *s == '.';
+}
+
 static std::vector<Token> Tokenize(std::string const & s, std::unordered_map<std::string, double> const & constants, std::string const & expr,
                                    std::unordered_map<std::string, std::pair<int, std::vector<double>>> const & matrices = {},
                                    int depth = 0) {
@@ -217,7 +224,7 @@ double EvalExpression(std::string const & expr, std::unordered_map<std::string,
         char* end = nullptr;
         errno = 0;
         double val = std::strtod(s.c_str(), &end);
-        if(end != s.c_str() && end == s.c_str() + s.size()) {
+        if(LooksNumeric(s.c_str()) && end != s.c_str() && end == s.c_str() + s.size()) {
             if(errno == ERANGE)
                 throw std::runtime_error("GDML expression error: numeric value out of range in '" + expr + "'");
             return val;
@@ -394,7 +401,7 @@ double SafeParseDouble(const char* val, std::unordered_map<std::string, double>
     char* end = nullptr;
     errno = 0;
     double result = std::strtod(val, &end);
-    if(end != val && *end == '\0') {
+    if(LooksNumeric(val) && end != val && *end == '\0') {
         if(errno == ERANGE)
             throw std::runtime_error("GDML expression error: numeric value out of range in '" + std::string(val) + "'");
         return result;
-- 
2.43.0


From 28860d5cad8a7bc1a9f8446cf5f2e444cee20878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:57 +0000
Subject: [PATCH 109/182] fix: matrix indices of a GDML expression may be
 expressions

---
 .../detector/private/gdml/GDMLExpression.cxx  | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLExpression.cxx b/projects/detector/private/gdml/GDMLExpression.cxx
index fdf33aa..9f0866b 100644
--- a/projects/detector/private/gdml/GDMLExpression.cxx
+++ b/projects/detector/private/gdml/GDMLExpression.cxx
@@ -147,14 +147,23 @@ static std::vector<Token> Tokenize(std::string const & s, std::unordered_map<std
                     throw std::runtime_error("GDML expression error: unknown matrix '" + name + "' in '" + expr + "'");
                 }
                 i = j + 1; // skip '['
-                // Parse first index expression (up to ',' or ']')
+                // Parse first index expression (up to ',' or ']'). Commas inside
+                // a function call or a nested element access belong to those.
                 int bracket_depth = 1;
+                int paren_depth = 0;
                 size_t idx_start = i;
                 size_t comma_pos = std::string::npos;
                 while(i < s.size() && bracket_depth > 0) {
                     if(s[i] == '[') ++bracket_depth;
                     else if(s[i] == ']') --bracket_depth;
-                    else if(s[i] == ',' && bracket_depth == 1) comma_pos = i;
+                    else if(s[i] == '(') ++paren_depth;
+                    else if(s[i] == ')') --paren_depth;
+                    else if(s[i] == ',' && bracket_depth == 1 && paren_depth == 0) {
+                        if(comma_pos != std::string::npos) {
+                            throw std::runtime_error("GDML expression error: too many indices for '" + name + "' in '" + expr + "'");
+                        }
+                        comma_pos = i;
+                    }
                     if(bracket_depth > 0) ++i;
                 }
                 if(bracket_depth != 0) {
@@ -172,8 +181,8 @@ static std::vector<Token> Tokenize(std::string const & s, std::unordered_map<std
                     std::string row_expr = s.substr(idx_start, comma_pos - idx_start);
                     std::string col_expr = s.substr(comma_pos + 1, bracket_end - comma_pos - 1);
                     // Recursively evaluate the index expressions
-                    double row_val = EvalExpression(row_expr, constants, {}, depth + 1);
-                    double col_val = EvalExpression(col_expr, constants, {}, depth + 1);
+                    double row_val = EvalExpression(row_expr, constants, matrices, depth + 1);
+                    double col_val = EvalExpression(col_expr, constants, matrices, depth + 1);
                     int row = static_cast<int>(row_val + 0.5);
                     int col = static_cast<int>(col_val + 0.5);
                     int flat_idx = (row - 1) * coldim + (col - 1);
@@ -184,7 +193,7 @@ static std::vector<Token> Tokenize(std::string const & s, std::unordered_map<std
                 } else {
                     // Single index: name[idx] (1-based)
                     std::string idx_expr = s.substr(idx_start, bracket_end - idx_start);
-                    double idx_val = EvalExpression(idx_expr, constants, {}, depth + 1);
+                    double idx_val = EvalExpression(idx_expr, constants, matrices, depth + 1);
                     int idx = static_cast<int>(idx_val + 0.5);
                     int flat_idx = idx - 1;
                     if(flat_idx < 0 || flat_idx >= static_cast<int>(vals.size())) {
-- 
2.43.0


From c6b1b46bf5333b35684b200bbfb2e9aba4e8a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:57 +0000
Subject: [PATCH 110/182] fix: a GDML matrix column out of range is an error,
 not an element of another row

---
 projects/detector/private/gdml/GDMLExpression.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/private/gdml/GDMLExpression.cxx b/projects/detector/private/gdml/GDMLExpression.cxx
index 9f0866b..1567e8a 100644
--- a/projects/detector/private/gdml/GDMLExpression.cxx
+++ b/projects/detector/private/gdml/GDMLExpression.cxx
@@ -186,7 +186,7 @@ static std::vector<Token> Tokenize(std::string const & s, std::unordered_map<std
                     int row = static_cast<int>(row_val + 0.5);
                     int col = static_cast<int>(col_val + 0.5);
                     int flat_idx = (row - 1) * coldim + (col - 1);
-                    if(flat_idx < 0 || flat_idx >= static_cast<int>(vals.size())) {
+                    if(row < 1 || col < 1 || col > coldim || flat_idx >= static_cast<int>(vals.size())) {
                         throw std::runtime_error("GDML expression error: matrix index out of range for '" + name + "[" + std::to_string(row) + "," + std::to_string(col) + "]' in '" + expr + "'");
                     }
                     result = vals[flat_idx];
-- 
2.43.0


From d561b219bb29e3ccc29b86a676cc7a6a067b3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 111/182] fix: loops of GDML definitions are executed once

---
 projects/detector/private/GDMLParser.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/GDMLParser.cxx b/projects/detector/private/GDMLParser.cxx
index 3cd03ac..c2a3ea5 100644
--- a/projects/detector/private/GDMLParser.cxx
+++ b/projects/detector/private/GDMLParser.cxx
@@ -213,12 +213,8 @@ GDMLData ParseGDML(std::string const & filename, GDMLParseOptions const & option
     // Resolve all <define> sections in document order (handles loops inline).
     gdml::ResolveDefineInOrder(gdml_node, data, options);
 
-    // Expand <loop> elements in non-define sections (structure, solids) where
-    // downstream parsers need to see the expanded DOM nodes.
-    gdml::ExpandLoops(doc, gdml_node, data.constants, data);
-    data.ThrowIfErrors();
     // Remove loops from <define> sections (already resolved, but the DOM nodes
-    // are still present; remove them so ParseDefine is not confused if called again)
+    // are still present; expanding them below would execute them a second time)
     for(auto* def = gdml_node->first_node("define"); def; def = def->next_sibling("define")) {
         auto* child = def->first_node();
         while(child) {
@@ -229,6 +225,10 @@ GDMLData ParseGDML(std::string const & filename, GDMLParseOptions const & option
             child = next;
         }
     }
+    // Expand <loop> elements in non-define sections (structure, solids) where
+    // downstream parsers need to see the expanded DOM nodes.
+    gdml::ExpandLoops(doc, gdml_node, data.constants, data);
+    data.ThrowIfErrors();
 
     // Parse all <materials> sections (with instance-scoped name resolution)
     gdml::ParseAllMaterials(gdml_node, data, options);
-- 
2.43.0


From 64d040e61d54216b3088254c4a299d2dbb9a62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 112/182] fix: rounding errors of a GDML loop variable do not
 change generated names

---
 projects/detector/private/gdml/GDMLDefineParser.cxx | 2 +-
 projects/detector/private/gdml/GDMLParserPrivate.h  | 7 +++++++
 projects/detector/private/gdml/GDMLPreprocess.cxx   | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLDefineParser.cxx b/projects/detector/private/gdml/GDMLDefineParser.cxx
index 90cd7ca..d7b7a0a 100644
--- a/projects/detector/private/gdml/GDMLDefineParser.cxx
+++ b/projects/detector/private/gdml/GDMLDefineParser.cxx
@@ -35,7 +35,7 @@ void ResolveDefineInOrder(rapidxml::xml_node<>* gdml_node,
             std::string expr = s.substr(pos + 1, end - pos - 1);
             try {
                 double v = EvalExpression(expr, data.constants, data.matrices);
-                long long iv = static_cast<long long>(v);
+                long long iv = BracketInteger(v);
                 s.replace(pos, end - pos + 1, std::to_string(iv));
             } catch(...) {
                 pos = end + 1;
diff --git a/projects/detector/private/gdml/GDMLParserPrivate.h b/projects/detector/private/gdml/GDMLParserPrivate.h
index 936b7a5..4eb86d2 100644
--- a/projects/detector/private/gdml/GDMLParserPrivate.h
+++ b/projects/detector/private/gdml/GDMLParserPrivate.h
@@ -75,6 +75,13 @@ inline bool IsIdentChar(char c) {
     return std::isalnum(static_cast<unsigned char>(c)) || c == '_';
 }
 
+// Integer value of a bracket expression in a name. The tolerance keeps the
+// rounding errors of a non-integer loop step (3*0.1 = 0.30000000000000004,
+// 8*0.1 = 0.79999999999999993 when accumulated) out of generated names.
+inline long long BracketInteger(double v) {
+    return static_cast<long long>(v + (v < 0 ? -1e-9 : 1e-9));
+}
+
 bool IsBuiltInConstant(std::string const & name);
 void SeedBuiltInConstants(GDMLData & data);
 
diff --git a/projects/detector/private/gdml/GDMLPreprocess.cxx b/projects/detector/private/gdml/GDMLPreprocess.cxx
index cc5a371..300482c 100644
--- a/projects/detector/private/gdml/GDMLPreprocess.cxx
+++ b/projects/detector/private/gdml/GDMLPreprocess.cxx
@@ -327,7 +327,7 @@ static std::string SubstLoopVar(
         std::string expr = result.substr(pos + 1, end - pos - 1);
         try {
             double v = EvalExpression(expr, constants);
-            long long iv = static_cast<long long>(v);
+            long long iv = BracketInteger(v);
             result.replace(pos, end - pos + 1, std::to_string(iv));
         } catch(std::exception const & e) {
             data.errors.push_back("bracket evaluation failed for '[" + expr + "]': " + e.what());
-- 
2.43.0


From 53063a180cef891408248f0cd9c2a366689a854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:44 +0000
Subject: [PATCH 113/182] fix: matrix elements can be read inside GDML loops

---
 .../private/gdml/GDMLDefineParser.cxx         | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLDefineParser.cxx b/projects/detector/private/gdml/GDMLDefineParser.cxx
index d7b7a0a..8208e58 100644
--- a/projects/detector/private/gdml/GDMLDefineParser.cxx
+++ b/projects/detector/private/gdml/GDMLDefineParser.cxx
@@ -25,13 +25,24 @@ void ResolveDefineInOrder(rapidxml::xml_node<>* gdml_node,
                                  GDMLParseOptions const & options) {
     // Evaluate bracket expressions [expr] in an attribute string using current
     // constants. Transforms "sum_[i+1]" into "sum_4" (if i=3 in constants).
-    // Used for both name and value attributes within loop bodies.
-    auto resolveBrackets = [&](const char* raw) -> std::string {
+    // Used for both name and value attributes within loop bodies. In a value,
+    // brackets that follow the name of a matrix access one of its elements.
+    auto resolveBrackets = [&](const char* raw, bool is_value = false) -> std::string {
         std::string s(raw);
         size_t pos = 0;
         while((pos = s.find('[', pos)) != std::string::npos) {
             size_t end = s.find(']', pos + 1);
             if(end == std::string::npos) break;
+            if(is_value) {
+                size_t name_end = pos;
+                while(name_end > 0 && (s[name_end - 1] == ' ' || s[name_end - 1] == '\t')) --name_end;
+                size_t name_start = name_end;
+                while(name_start > 0 && IsIdentChar(s[name_start - 1])) --name_start;
+                if(data.matrices.count(s.substr(name_start, name_end - name_start)) > 0) {
+                    ++pos;
+                    continue;
+                }
+            }
             std::string expr = s.substr(pos + 1, end - pos - 1);
             try {
                 double v = EvalExpression(expr, data.constants, data.matrices);
@@ -131,7 +142,7 @@ void ResolveDefineInOrder(rapidxml::xml_node<>* gdml_node,
             bool in_loop = loop_depth > 0;
             double value;
             if(in_loop) {
-                std::string val_str = resolveBrackets(SafeAttrVal(node, "value"));
+                std::string val_str = resolveBrackets(SafeAttrVal(node, "value"), true);
                 value = SafeParseDouble(val_str.c_str(), data.constants, data.matrices);
             } else {
                 value = SafeParseDouble(SafeAttrVal(node, "value"), data.constants, data.matrices);
@@ -148,7 +159,7 @@ void ResolveDefineInOrder(rapidxml::xml_node<>* gdml_node,
             bool in_loop = loop_depth > 0;
             double value;
             if(in_loop) {
-                std::string val_str = resolveBrackets(SafeAttrVal(node, "value"));
+                std::string val_str = resolveBrackets(SafeAttrVal(node, "value"), true);
                 value = SafeParseDouble(val_str.c_str(), data.constants, data.matrices);
             } else {
                 value = SafeParseDouble(SafeAttrVal(node, "value"), data.constants, data.matrices);
-- 
2.43.0


From 62d81770bf2b5082b9c7d69825a892084cf2a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:30 +0000
Subject: [PATCH 114/182] fix: a GDML component listed twice counts twice

---
 projects/detector/private/gdml/GDMLMaterialParser.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLMaterialParser.cxx b/projects/detector/private/gdml/GDMLMaterialParser.cxx
index 7be4bec..bea54ee 100644
--- a/projects/detector/private/gdml/GDMLMaterialParser.cxx
+++ b/projects/detector/private/gdml/GDMLMaterialParser.cxx
@@ -87,7 +87,7 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
                     std::string ref = SafeAttrVal(frac, "ref");
                     double n = SafeParseDouble(SafeAttrVal(frac, "n"), data.constants);
                     if(!ref.empty()) {
-                        mat.composition[resolveCompRef(ref)] = n;
+                        mat.composition[resolveCompRef(ref)] += n;
                     }
                 }
 
@@ -173,7 +173,7 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
                     std::string ref = SafeAttrVal(frac, "ref");
                     double n = SafeParseDouble(SafeAttrVal(frac, "n"), data.constants);
                     if(!ref.empty()) {
-                        mat.composition[resolveCompRef(ref)] = n;
+                        mat.composition[resolveCompRef(ref)] += n;
                     }
                 }
 
@@ -231,11 +231,11 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
                     }
                     if(total_mass > 0) {
                         for(size_t ci = 0; ci < composite_entries.size(); ++ci) {
-                            mat.composition[composite_entries[ci].first] = masses[ci] / total_mass;
+                            mat.composition[composite_entries[ci].first] += masses[ci] / total_mass;
                         }
                     } else {
                         for(auto const & ce : composite_entries) {
-                            mat.composition[ce.first] = ce.second;
+                            mat.composition[ce.first] += ce.second;
                         }
                     }
                 }
-- 
2.43.0


From 1d5d46c70fd9a0acf11c48c8dc7ec4bae24c8154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:59 +0000
Subject: [PATCH 115/182] fix: isotope abundances of a GDML element are numbers
 of atoms, and give its mass

---
 .../private/gdml/GDMLMaterialParser.cxx       | 87 ++++++++++++-------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLMaterialParser.cxx b/projects/detector/private/gdml/GDMLMaterialParser.cxx
index bea54ee..3ddfa91 100644
--- a/projects/detector/private/gdml/GDMLMaterialParser.cxx
+++ b/projects/detector/private/gdml/GDMLMaterialParser.cxx
@@ -47,6 +47,40 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
         return material_tracker.Resolve(ref_name);
     };
 
+    // Atomic mass of a resolved component (0 if it is not known).
+    // Extract original name from a flattened name like "Iron__2".
+    // The flattened format is "OriginalName__N" (double underscore + instance number).
+    // Instance 0 keeps the original name unchanged.
+    // Parse a flattened name "Base__N" into (base, index).
+    // FlatName uses 1-based suffixes, so "Iron__2" → index 1.
+    // Returns (name, 0) for bare names without a suffix.
+    auto parseFlatIdx = [](std::string const & flat) -> std::pair<std::string, int> {
+        size_t pos = flat.rfind("__");
+        if(pos == std::string::npos || pos == 0 || pos + 2 >= flat.size())
+            return {flat, 0};
+        for(size_t i = pos + 2; i < flat.size(); ++i)
+            if(!std::isdigit(static_cast<unsigned char>(flat[i])))
+                return {flat, 0};
+        int idx = std::stoi(flat.substr(pos + 2)) - 1;
+        return {flat.substr(0, pos), (idx >= 0) ? idx : 0};
+    };
+    auto lookupA = [&](std::string const & resolved_name) -> double {
+        auto [base, idx] = parseFlatIdx(resolved_name);
+        auto const & iso_inst = isotope_tracker.Instances();
+        auto iso_it = iso_inst.find(base);
+        if(iso_it != iso_inst.end() && idx < (int)iso_it->second.size())
+            return iso_it->second[idx].A;
+        auto const & elem_inst = element_tracker.Instances();
+        auto elem_it = elem_inst.find(base);
+        if(elem_it != elem_inst.end() && idx < (int)elem_it->second.size())
+            return elem_it->second[idx].A;
+        auto const & mat_inst = material_tracker.Instances();
+        auto mat_it = mat_inst.find(base);
+        if(mat_it != mat_inst.end() && idx < (int)mat_it->second.size())
+            return mat_it->second[idx].A;
+        return 0.0;
+    };
+
     // Process all sections in order
     for(auto* mat_node : mat_sections) {
         for(auto* node = mat_node->first_node(); node; node = node->next_sibling()) {
@@ -91,6 +125,27 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
                     }
                 }
 
+                // The fractions of an element are relative abundances (numbers of
+                // atoms): the element's mass is their mean, and its composition
+                // is stored as mass fractions like that of a material.
+                if(!mat.composition.empty()) {
+                    double atoms = 0.0;
+                    double mass = 0.0;
+                    bool known = true;
+                    for(auto const & comp : mat.composition) {
+                        double A = lookupA(comp.first);
+                        if(A <= 0) known = false;
+                        atoms += comp.second;
+                        mass += comp.second * A;
+                    }
+                    if(known && atoms > 0 && mass > 0) {
+                        if(mat.A <= 0) mat.A = mass / atoms;
+                        for(auto & comp : mat.composition) {
+                            comp.second *= lookupA(comp.first) / mass;
+                        }
+                    }
+                }
+
                 if(!mat.name.empty()) {
                     storeInStack(element_tracker, mat);
                 }
@@ -190,38 +245,6 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
                     }
                 }
                 if(!composite_entries.empty()) {
-                    // Extract original name from a flattened name like "Iron__2".
-                    // The flattened format is "OriginalName__N" (double underscore + instance number).
-                    // Instance 0 keeps the original name unchanged.
-                    // Parse a flattened name "Base__N" into (base, index).
-                    // FlatName uses 1-based suffixes, so "Iron__2" → index 1.
-                    // Returns (name, 0) for bare names without a suffix.
-                    auto parseFlatIdx = [](std::string const & flat) -> std::pair<std::string, int> {
-                        size_t pos = flat.rfind("__");
-                        if(pos == std::string::npos || pos == 0 || pos + 2 >= flat.size())
-                            return {flat, 0};
-                        for(size_t i = pos + 2; i < flat.size(); ++i)
-                            if(!std::isdigit(static_cast<unsigned char>(flat[i])))
-                                return {flat, 0};
-                        int idx = std::stoi(flat.substr(pos + 2)) - 1;
-                        return {flat.substr(0, pos), (idx >= 0) ? idx : 0};
-                    };
-                    auto lookupA = [&](std::string const & resolved_name) -> double {
-                        auto [base, idx] = parseFlatIdx(resolved_name);
-                        auto const & iso_inst = isotope_tracker.Instances();
-                        auto iso_it = iso_inst.find(base);
-                        if(iso_it != iso_inst.end() && idx < (int)iso_it->second.size())
-                            return iso_it->second[idx].A;
-                        auto const & elem_inst = element_tracker.Instances();
-                        auto elem_it = elem_inst.find(base);
-                        if(elem_it != elem_inst.end() && idx < (int)elem_it->second.size())
-                            return elem_it->second[idx].A;
-                        auto const & mat_inst = material_tracker.Instances();
-                        auto mat_it = mat_inst.find(base);
-                        if(mat_it != mat_inst.end() && idx < (int)mat_it->second.size())
-                            return mat_it->second[idx].A;
-                        return 0.0;
-                    };
                     double total_mass = 0.0;
                     std::vector<double> masses(composite_entries.size());
                     for(size_t ci = 0; ci < composite_entries.size(); ++ci) {
-- 
2.43.0


From ac29927bd87660fe39b47d469e9a76855bbd3b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:59 +0000
Subject: [PATCH 116/182] fix: a GDML material of atoms of unknown mass is an
 error

---
 projects/detector/private/gdml/GDMLMaterialParser.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLMaterialParser.cxx b/projects/detector/private/gdml/GDMLMaterialParser.cxx
index 3ddfa91..5ac0ef3 100644
--- a/projects/detector/private/gdml/GDMLMaterialParser.cxx
+++ b/projects/detector/private/gdml/GDMLMaterialParser.cxx
@@ -249,6 +249,12 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
                     std::vector<double> masses(composite_entries.size());
                     for(size_t ci = 0; ci < composite_entries.size(); ++ci) {
                         double A = lookupA(composite_entries[ci].first);
+                        if(A <= 0) {
+                            throw std::runtime_error(
+                                "GDML error: material '" + mat.name
+                                + "' is composed of atoms of '" + composite_entries[ci].first
+                                + "', whose atomic mass is not known");
+                        }
                         masses[ci] = composite_entries[ci].second * A;
                         total_mass += masses[ci];
                     }
@@ -256,10 +262,6 @@ void ParseAllMaterials(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLPar
                         for(size_t ci = 0; ci < composite_entries.size(); ++ci) {
                             mat.composition[composite_entries[ci].first] += masses[ci] / total_mass;
                         }
-                    } else {
-                        for(auto const & ce : composite_entries) {
-                            mat.composition[ce.first] += ce.second;
-                        }
                     }
                 }
 
-- 
2.43.0


From 222e4e84e57ce0f1e8f16b8874b2fe72e07b21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:43 +0000
Subject: [PATCH 117/182] fix: GDML names with addresses are resolved per kind
 of object

---
 .../detector/private/gdml/GDMLParserPrivate.h | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLParserPrivate.h b/projects/detector/private/gdml/GDMLParserPrivate.h
index 4eb86d2..821233d 100644
--- a/projects/detector/private/gdml/GDMLParserPrivate.h
+++ b/projects/detector/private/gdml/GDMLParserPrivate.h
@@ -176,14 +176,14 @@ public:
         auto & vec = instances_[stripped];
         if(!vec.empty() && eq(vec.back(), item)) {
             if(had_suffix) {
-                data_.name_aliases[original_name] = FlatName(stripped, (int)vec.size() - 1);
+                SetAlias(original_name, FlatName(stripped, (int)vec.size() - 1));
             }
             return;
         }
         vec.push_back(item);
         counts_[stripped] = (int)vec.size();
         if(had_suffix) {
-            data_.name_aliases[original_name] = FlatName(stripped, (int)vec.size() - 1);
+            SetAlias(original_name, FlatName(stripped, (int)vec.size() - 1));
         }
     }
 
@@ -201,8 +201,8 @@ public:
     // Look up the most recent instance by name. Checks alias map first,
     // then falls back to stripped name.
     T const * Lookup(std::string const & original_name) const {
-        auto ait = data_.name_aliases.find(original_name);
-        if(ait != data_.name_aliases.end()) {
+        auto ait = aliases_.find(original_name);
+        if(ait != aliases_.end()) {
             auto parsed = ParseFlatName(ait->second);
             if(parsed.second >= 0) {
                 auto sit = instances_.find(parsed.first);
@@ -268,11 +268,13 @@ public:
                 dest[r.second] = std::move(val);
             }
         }
-        // Update aliases that point to renamed keys
-        for(auto & alias : data_.name_aliases) {
+        // Update this tracker's aliases that point to renamed keys (the
+        // aliases of other trackers may have the same targets)
+        for(auto & alias : aliases_) {
             auto rit = renames.find(alias.second);
             if(rit != renames.end()) {
                 alias.second = rit->second;
+                data_.name_aliases[alias.first] = rit->second;
             }
         }
         return renames;
@@ -283,6 +285,11 @@ public:
     }
 
 private:
+    void SetAlias(std::string const & original_name, std::string const & target) {
+        aliases_[original_name] = target;
+        data_.name_aliases[original_name] = target;
+    }
+
     // Parse "name__N" into (name, N-1). Returns ("", -1) on failure.
     static std::pair<std::string, int> ParseFlatName(std::string const & flat) {
         size_t sep = flat.rfind("__");
@@ -305,6 +312,7 @@ private:
     bool strip_;
     std::unordered_map<std::string, std::vector<T>> instances_;
     std::unordered_map<std::string, int> counts_;
+    std::unordered_map<std::string, std::string> aliases_;
 };
 
 void ResolveDefineInOrder(rapidxml::xml_node<>* gdml_node,
-- 
2.43.0


From a0d895918e818daec8e65ea1edb3c076493dc9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:43 +0000
Subject: [PATCH 118/182] fix: a GDML world named with an address is the volume
 defined with that address

---
 projects/detector/private/gdml/GDMLStructureParser.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index cecb0a9..dcf9820 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -313,7 +313,10 @@ void ParseSetup(rapidxml::xml_node<>* setup_node, GDMLData & data, GDMLParseOpti
 
     auto* world_node = setup_node->first_node("world");
     if(world_node) {
-        data.world_volume = StripPointerSuffix(SafeAttrVal(world_node, "ref"), options.strip_pointer_suffixes);
+        std::string ref = SafeAttrVal(world_node, "ref");
+        auto ait = data.name_aliases.find(ref);
+        data.world_volume = (ait != data.name_aliases.end())
+            ? ait->second : StripPointerSuffix(ref, options.strip_pointer_suffixes);
     }
 }
 
-- 
2.43.0


From 4e40917cd6b0243ac9b6e4ef7b963a86aafdca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:43 +0000
Subject: [PATCH 119/182] fix: GDML volumes of different structure sections do
 not replace each other silently

---
 projects/detector/private/GDMLParser.cxx               | 4 +---
 projects/detector/private/gdml/GDMLStructureParser.cxx | 6 ++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/projects/detector/private/GDMLParser.cxx b/projects/detector/private/GDMLParser.cxx
index c2a3ea5..4e8282c 100644
--- a/projects/detector/private/GDMLParser.cxx
+++ b/projects/detector/private/GDMLParser.cxx
@@ -235,9 +235,7 @@ GDMLData ParseGDML(std::string const & filename, GDMLParseOptions const & option
     // Parse all <solids> sections (with instance-scoped boolean resolution)
     gdml::ParseAllSolids(gdml_node, data, options);
     // Parse all <structure> sections
-    for(auto* node = gdml_node->first_node("structure"); node; node = node->next_sibling("structure")) {
-        gdml::ParseStructure(node, data, options);
-    }
+    gdml::ParseStructure(gdml_node->first_node("structure"), data, options);
     // Parse all <setup> sections (last wins)
     for(auto* node = gdml_node->first_node("setup"); node; node = node->next_sibling("setup")) {
         gdml::ParseSetup(node, data, options);
diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index dcf9820..6c9a9f9 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -11,7 +11,8 @@ using namespace siren::math;
 namespace siren {
 namespace detector {
 namespace gdml {
-// Parse the <structure> section: volumes, assemblies, and physical volumes.
+// Parse the <structure> sections (the given one and those after it): volumes,
+// assemblies, and physical volumes.
 // Checks for ambiguous solid/material references (names with multiple instances).
 void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLParseOptions const & options) {
     if(!structure_node) return;
@@ -132,7 +133,8 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
         }
     };
 
-    for(auto* vol_node = structure_node->first_node(); vol_node;
+    for(auto* section = structure_node; section; section = section->next_sibling("structure"))
+    for(auto* vol_node = section->first_node(); vol_node;
         vol_node = vol_node->next_sibling()) {
 
         std::string tag(vol_node->name());
-- 
2.43.0


From 87cc922ddb8342dc580ed685423bf7ccb7954bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:40 +0000
Subject: [PATCH 120/182] fix: a GDML sub-file keeps definitions whose
 references differ from those merged before

---
 projects/detector/private/GDMLParser.cxx | 71 +++++++++++++++---------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/projects/detector/private/GDMLParser.cxx b/projects/detector/private/GDMLParser.cxx
index 4e8282c..59e4bcc 100644
--- a/projects/detector/private/GDMLParser.cxx
+++ b/projects/detector/private/GDMLParser.cxx
@@ -52,37 +52,59 @@ std::unordered_map<std::string, std::string> GDMLData::MergeFrom(GDMLData & othe
         }
     };
 
+    auto r = [&](std::string const & name) -> std::string const & {
+        auto it = renames.find(name);
+        return (it != renames.end()) ? it->second : name;
+    };
+
     // Detect collisions across typed maps. Identical definitions are
     // silently reused (no rename). Differing definitions get a rename.
-    auto checkMaterials = [&](auto const & sub_map, auto const & parent_map) {
-        for(auto const & p : sub_map) {
-            auto it = parent_map.find(p.first);
-            if(it != parent_map.end() && !(it->second == p.second))
-                renames[p.first] = findUnique(p.first);
+    // A definition also differs when something it refers to was renamed,
+    // so the comparison is repeated until there are no further renames.
+    bool changed = true;
+    while(changed) {
+        changed = false;
+        auto rename = [&](std::string const & name) {
+            renames[name] = findUnique(name);
+            changed = true;
+        };
+
+        auto checkMaterials = [&](auto const & sub_map, auto const & parent_map) {
+            for(auto const & p : sub_map) {
+                if(renames.count(p.first)) continue;
+                auto it = parent_map.find(p.first);
+                if(it == parent_map.end()) continue;
+                GDMLMaterial renamed = p.second;
+                renamed.composition.clear();
+                for(auto const & cp : p.second.composition)
+                    renamed.composition[r(cp.first)] = cp.second;
+                if(!(it->second == renamed)) rename(p.first);
+            }
+        };
+        checkMaterials(other.isotopes, isotopes);
+        checkMaterials(other.elements, elements);
+        checkMaterials(other.materials, materials);
+
+        for(auto const & p : other.solids) {
+            if(renames.count(p.first)) continue;
+            auto it = solids.find(p.first);
+            if(it != solids.end() && !(*it->second == *p.second))
+                rename(p.first);
         }
-    };
-    checkMaterials(other.isotopes, isotopes);
-    checkMaterials(other.elements, elements);
-    checkMaterials(other.materials, materials);
-
-    for(auto const & p : other.solids) {
-        auto it = solids.find(p.first);
-        if(it != solids.end() && !(*it->second == *p.second))
-            renames[p.first] = findUnique(p.first);
-    }
 
-    for(auto const & p : other.volumes) {
-        auto it = volumes.find(p.first);
-        if(it != volumes.end()) {
+        for(auto const & p : other.volumes) {
+            if(renames.count(p.first)) continue;
+            auto it = volumes.find(p.first);
+            if(it == volumes.end()) continue;
             auto const & a = it->second;
             auto const & b = p.second;
-            bool differ = (a.solid_ref != b.solid_ref
-                || a.material_ref != b.material_ref
+            bool differ = (a.solid_ref != r(b.solid_ref)
+                || a.material_ref != r(b.material_ref)
                 || a.children.size() != b.children.size()
                 || a.is_assembly != b.is_assembly);
             if(!differ) {
                 for(size_t i = 0; i < a.children.size(); ++i) {
-                    if(a.children[i].volume_ref != b.children[i].volume_ref
+                    if(a.children[i].volume_ref != r(b.children[i].volume_ref)
                        || !(a.children[i].position == b.children[i].position)
                        || !(a.children[i].rotation == b.children[i].rotation)) {
                         differ = true;
@@ -90,16 +112,11 @@ std::unordered_map<std::string, std::string> GDMLData::MergeFrom(GDMLData & othe
                     }
                 }
             }
-            if(differ) renames[p.first] = findUnique(p.first);
+            if(differ) rename(p.first);
         }
     }
 
     // Apply renames to the other's internal references
-    auto r = [&](std::string const & name) -> std::string const & {
-        auto it = renames.find(name);
-        return (it != renames.end()) ? it->second : name;
-    };
-
     if(!renames.empty()) {
         other.world_volume = r(other.world_volume);
 
-- 
2.43.0


From ddaf7254787fecc7d24148b1a0728acfb8d90417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:32 +0000
Subject: [PATCH 121/182] fix: GDML volumes of a sub-file are not replaced by
 volumes of the same name of the file placing it

---
 projects/detector/private/GDMLParser.cxx      |  9 +++++-
 .../private/gdml/GDMLStructureParser.cxx      | 28 ++++++++-----------
 .../public/SIREN/detector/GDMLParser.h        |  8 +++++-
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/projects/detector/private/GDMLParser.cxx b/projects/detector/private/GDMLParser.cxx
index 59e4bcc..d01e7ad 100644
--- a/projects/detector/private/GDMLParser.cxx
+++ b/projects/detector/private/GDMLParser.cxx
@@ -26,7 +26,9 @@ void GDMLData::ThrowIfErrors() {
     throw std::runtime_error(msg);
 }
 
-std::unordered_map<std::string, std::string> GDMLData::MergeFrom(GDMLData & other) {
+std::unordered_map<std::string, std::string> GDMLData::MergeFrom(
+        GDMLData & other,
+        std::unordered_set<std::string> const & reserved_volumes) {
     std::unordered_map<std::string, std::string> renames;
 
     // Find a name that doesn't collide with the parent, the sub-file,
@@ -44,6 +46,7 @@ std::unordered_map<std::string, std::string> GDMLData::MergeFrom(GDMLData & othe
             candidate = name + "_" + std::to_string(suffix++);
             if(inAny(candidate, *this)) continue;
             if(inAny(candidate, other)) continue;
+            if(reserved_volumes.count(candidate)) continue;
             bool rename_hit = false;
             for(auto const & r : renames)
                 if(r.second == candidate) { rename_hit = true; break; }
@@ -94,6 +97,10 @@ std::unordered_map<std::string, std::string> GDMLData::MergeFrom(GDMLData & othe
 
         for(auto const & p : other.volumes) {
             if(renames.count(p.first)) continue;
+            if(reserved_volumes.count(p.first)) {
+                rename(p.first);
+                continue;
+            }
             auto it = volumes.find(p.first);
             if(it == volumes.end()) continue;
             auto const & a = it->second;
diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index 6c9a9f9..3b410d9 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -37,6 +37,17 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
     std::unordered_set<std::string> file_volumes;
     std::unordered_set<std::string> file_internal_volumes;
 
+    // Names of the volumes this file defines itself: sub-file volumes of the
+    // same names are different volumes.
+    std::unordered_set<std::string> own_volumes;
+    for(auto* section = structure_node; section; section = section->next_sibling("structure")) {
+        for(auto* node = section->first_node(); node; node = node->next_sibling()) {
+            std::string tag(node->name());
+            if(tag != "volume" && tag != "assembly") continue;
+            own_volumes.insert(StripPointerSuffix(SafeAttrVal(node, "name"), options.strip_pointer_suffixes));
+        }
+    }
+
     // Shared physvol child parser used by both <volume> and <assembly>
     auto parsePhysVols = [&](rapidxml::xml_node<>* parent_node, GDMLVolume & vol) {
         for(auto* pv = parent_node->first_node("physvol"); pv; pv = pv->next_sibling("physvol")) {
@@ -77,7 +88,7 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                     for(auto const & p : sub.volumes)
                         sub_vol_keys.push_back(p.first);
 
-                    auto renames = data.MergeFrom(sub);
+                    auto renames = data.MergeFrom(sub, own_volumes);
 
                     auto r = [&](std::string const & name) -> std::string const & {
                         auto it = renames.find(name);
@@ -257,21 +268,6 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
     auto vol_set_name = [](GDMLVolume & v, std::string const & n) { v.name = n; };
     volume_tracker.Flatten(data.volumes, nullptr, vol_set_name);
 
-    // Parent-defined volumes shadow file-internal names: Flatten
-    // overwrites sub-file entries in data.volumes, so the parent's
-    // definition wins and the name is no longer file-internal.
-    for(auto const & pair : volume_tracker.Instances()) {
-        if(pair.second.size() == 1) {
-            file_internal_volumes.erase(pair.first);
-            file_volumes.erase(pair.first);
-        } else {
-            for(int i = 0; i < (int)pair.second.size(); ++i) {
-                file_internal_volumes.erase(volume_tracker.FlatName(pair.first, i));
-                file_volumes.erase(volume_tracker.FlatName(pair.first, i));
-            }
-        }
-    }
-
     // Resolve volumeref and replicavol child refs now that all volumes
     // are flattened and aliases are finalized.
     for(auto & vpair : data.volumes) {
diff --git a/projects/detector/public/SIREN/detector/GDMLParser.h b/projects/detector/public/SIREN/detector/GDMLParser.h
index 5a8e949..982c159 100644
--- a/projects/detector/public/SIREN/detector/GDMLParser.h
+++ b/projects/detector/public/SIREN/detector/GDMLParser.h
@@ -8,6 +8,7 @@
 #include <vector>
 #include <utility>
 #include <unordered_map>
+#include <unordered_set>
 
 #include "SIREN/math/Vector3D.h"
 #include "SIREN/math/Quaternion.h"
@@ -130,7 +131,12 @@ struct GDMLData {
     //
     // Returns a rename map (original name -> new name) for any names that
     // were changed, so the caller can update volume references.
-    std::unordered_map<std::string, std::string> MergeFrom(GDMLData & other);
+    //
+    // Volumes named in reserved_volumes (those the caller is about to define
+    // itself) are renamed as well.
+    std::unordered_map<std::string, std::string> MergeFrom(
+        GDMLData & other,
+        std::unordered_set<std::string> const & reserved_volumes = {});
 };
 
 /// Parse a GDML file and return the parsed data.
-- 
2.43.0


From 98a3ca570a8f9b962da563f1412ab3857438e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:32 +0000
Subject: [PATCH 122/182] fix: the volname of a GDML sub-file may carry an
 address

---
 .../detector/private/gdml/GDMLStructureParser.cxx   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index 3b410d9..0bd3f41 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -81,6 +81,13 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                     std::string path = (is_absolute || data.base_dir.empty()) ? fname : data.base_dir + "/" + fname;
                     GDMLData sub = ParseGDML(path, options);
 
+                    // The volume to place: names are those of the sub-file.
+                    std::string placed = sub.world_volume;
+                    if(!volname.empty()) {
+                        placed = ResolveAlias(volname, sub);
+                        if(!sub.volumes.count(placed))
+                            placed = StripPointerSuffix(volname, options.strip_pointer_suffixes);
+                    }
                     // Collect sub-file volume names before merge (maps
                     // are partially moved-from after MergeFrom).
                     std::vector<std::string> sub_vol_keys;
@@ -101,10 +108,8 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                         file_internal_volumes.insert(merged);
                     }
 
-                    if(!volname.empty()) {
-                        physvol.volume_ref = r(volname);
-                    } else if(!sub.world_volume.empty()) {
-                        physvol.volume_ref = sub.world_volume;
+                    if(!placed.empty()) {
+                        physvol.volume_ref = r(placed);
                     }
 
                     // The exposed world volume is the sole gateway into
-- 
2.43.0


From 5541997a551d02670ca90b56d3eb8fee1986534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:32 +0000
Subject: [PATCH 123/182] fix: as_assembly applies to one placement of a GDML
 sub-file, not to all

---
 .../detector/private/gdml/GDMLStructureParser.cxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index 0bd3f41..93d946c 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -88,6 +88,15 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                         if(!sub.volumes.count(placed))
                             placed = StripPointerSuffix(volname, options.strip_pointer_suffixes);
                     }
+                    // Before the merge, so that another placement of the same
+                    // volume is not affected.
+                    if(as_assembly) {
+                        auto vit = sub.volumes.find(placed);
+                        if(vit != sub.volumes.end()) {
+                            vit->second.is_assembly = true;
+                        }
+                    }
+
                     // Collect sub-file volume names before merge (maps
                     // are partially moved-from after MergeFrom).
                     std::vector<std::string> sub_vol_keys;
@@ -117,12 +126,6 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                     if(!physvol.volume_ref.empty())
                         file_internal_volumes.erase(physvol.volume_ref);
 
-                    if(as_assembly && !physvol.volume_ref.empty()) {
-                        auto vit = data.volumes.find(physvol.volume_ref);
-                        if(vit != data.volumes.end()) {
-                            vit->second.is_assembly = true;
-                        }
-                    }
                 }
             }
 
-- 
2.43.0


From 150449b429bcc12243f66e82af4bbd9a79cd6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:39 +0000
Subject: [PATCH 124/182] fix: different volumes of one GDML sub-file can be
 placed

---
 projects/detector/private/gdml/GDMLStructureParser.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index 93d946c..df96033 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -36,6 +36,7 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
     // came from sub-files so parent volumes cannot reference them.
     std::unordered_set<std::string> file_volumes;
     std::unordered_set<std::string> file_internal_volumes;
+    std::unordered_set<std::string> file_exposed_volumes;
 
     // Names of the volumes this file defines itself: sub-file volumes of the
     // same names are different volumes.
@@ -122,10 +123,9 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                     }
 
                     // The exposed world volume is the sole gateway into
-                    // the sub-file; remove it from the internal set.
+                    // the sub-file (also after further placements of it).
                     if(!physvol.volume_ref.empty())
-                        file_internal_volumes.erase(physvol.volume_ref);
-
+                        file_exposed_volumes.insert(physvol.volume_ref);
                 }
             }
 
@@ -300,7 +300,8 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
         for(auto const & vpair : data.volumes) {
             if(file_volumes.count(vpair.first)) continue;
             for(auto const & child : vpair.second.children) {
-                if(file_internal_volumes.count(child.volume_ref)) {
+                if(file_internal_volumes.count(child.volume_ref)
+                   && !file_exposed_volumes.count(child.volume_ref)) {
                     data.errors.push_back(
                         "GDML scope error: volume '" + vpair.first
                         + "' references '" + child.volume_ref
-- 
2.43.0


From 3ae4ef7560b553e61210d8f329d7536440d83b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:40 +0000
Subject: [PATCH 125/182] fix: GDML files that place each other are an error,
 not an endless recursion

---
 projects/detector/private/GDMLParser.cxx      | 19 +++++++++++++++++++
 .../detector/private/gdml/GDMLParserPrivate.h |  4 ++++
 .../private/gdml/GDMLStructureParser.cxx      |  2 +-
 .../public/SIREN/detector/GDMLParser.h        |  3 +++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/GDMLParser.cxx b/projects/detector/private/GDMLParser.cxx
index d01e7ad..bbc6c2e 100644
--- a/projects/detector/private/GDMLParser.cxx
+++ b/projects/detector/private/GDMLParser.cxx
@@ -1,5 +1,7 @@
 #include "SIREN/detector/GDMLParser.h"
 
+#include <algorithm>
+#include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <stdexcept>
@@ -174,6 +176,21 @@ std::unordered_map<std::string, std::string> GDMLData::MergeFrom(
 
 
 GDMLData ParseGDML(std::string const & filename, GDMLParseOptions const & options) {
+    return gdml::ParseGDMLFile(filename, options, {});
+}
+
+GDMLData gdml::ParseGDMLFile(std::string const & filename, GDMLParseOptions const & options,
+                             std::vector<std::string> const & parents) {
+    // A file that places itself, directly or through others, has no meaning
+    std::string canonical = filename;
+    if(char* resolved = realpath(filename.c_str(), nullptr)) {
+        canonical = resolved;
+        free(resolved);
+    }
+    if(std::find(parents.begin(), parents.end(), canonical) != parents.end()) {
+        throw std::runtime_error("GDML error: circular <file> reference: " + filename);
+    }
+
     // Read the file into a mutable buffer (rapidxml modifies in-place)
     std::ifstream file(filename.c_str(), std::ios::binary);
     if(!file.is_open()) {
@@ -220,6 +237,8 @@ GDMLData ParseGDML(std::string const & filename, GDMLParseOptions const & option
 
     GDMLData data;
     data.base_dir = base_dir;
+    data.file_stack = parents;
+    data.file_stack.push_back(canonical);
 
     gdml::SeedBuiltInConstants(data);
 
diff --git a/projects/detector/private/gdml/GDMLParserPrivate.h b/projects/detector/private/gdml/GDMLParserPrivate.h
index 821233d..007d1b4 100644
--- a/projects/detector/private/gdml/GDMLParserPrivate.h
+++ b/projects/detector/private/gdml/GDMLParserPrivate.h
@@ -315,6 +315,10 @@ private:
     std::unordered_map<std::string, std::string> aliases_;
 };
 
+// Parse a file placed by the given files (canonical paths).
+GDMLData ParseGDMLFile(std::string const & filename,
+                       GDMLParseOptions const & options,
+                       std::vector<std::string> const & parents);
 void ResolveDefineInOrder(rapidxml::xml_node<>* gdml_node,
                           GDMLData & data,
                           GDMLParseOptions const & options);
diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index df96033..8f66f6b 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -80,7 +80,7 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                 if(!fname.empty()) {
                     bool is_absolute = (!fname.empty() && fname[0] == '/');
                     std::string path = (is_absolute || data.base_dir.empty()) ? fname : data.base_dir + "/" + fname;
-                    GDMLData sub = ParseGDML(path, options);
+                    GDMLData sub = ParseGDMLFile(path, options, data.file_stack);
 
                     // The volume to place: names are those of the sub-file.
                     std::string placed = sub.world_volume;
diff --git a/projects/detector/public/SIREN/detector/GDMLParser.h b/projects/detector/public/SIREN/detector/GDMLParser.h
index 982c159..322656b 100644
--- a/projects/detector/public/SIREN/detector/GDMLParser.h
+++ b/projects/detector/public/SIREN/detector/GDMLParser.h
@@ -97,6 +97,9 @@ struct GDMLData {
     // Base directory of the GDML file, for resolving relative <file> paths.
     std::string base_dir;
 
+    // The file being parsed and, before it, those that place it with <file>.
+    std::vector<std::string> file_stack;
+
     // Name aliases: maps original names (possibly with Geant4 pointer suffixes
     // like "Si0x7f3a") to their canonical stripped/deduped names ("Si").
     // Used to resolve references that use the original exported names.
-- 
2.43.0


From 04a0cac6655a3b900fb11aa11450d67bc8f3baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:40 +0000
Subject: [PATCH 126/182] fix: the number of GDML replicas may be an
 expression, and skipped replicas are reported

---
 .../detector/private/gdml/GDMLStructureParser.cxx    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index 8f66f6b..2fe1dd5 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -208,10 +208,13 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
             {
                 std::string ns(SafeAttrVal(rv, "number"));
                 if(!ns.empty()) {
-                    try { ncopies = std::stoi(ns); } catch(...) { ncopies = 0; }
+                    ncopies = (int)std::lround(SafeParseDouble(ns.c_str(), data.constants));
                 }
             }
-            if(ncopies <= 0) continue;
+            if(ncopies <= 0) {
+                EmitWarning(data, options, "replicavol in volume '" + vol.name + "': no number of copies; skipping");
+                continue;
+            }
 
             std::string child_vol_ref;
             auto* vref = rv->first_node("volumeref");
@@ -219,7 +222,10 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
             if(child_vol_ref.empty()) continue;
 
             auto* raa = rv->first_node("replicate_along_axis");
-            if(!raa) continue;
+            if(!raa) {
+                EmitWarning(data, options, "replicavol in volume '" + vol.name + "': only replicate_along_axis is supported; skipping");
+                continue;
+            }
 
             double dir_x = 0, dir_y = 0, dir_z = 0;
             auto* dir = raa->first_node("direction");
-- 
2.43.0


From c756346b018ed94d421aaf85cd4f53d8fca5d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 127/182] fix: the number of sides of a GDML polyhedra and of
 columns of a matrix may be expressions

---
 projects/detector/private/gdml/GDMLDefineParser.cxx | 2 +-
 projects/detector/private/gdml/GDMLSolidParser.cxx  | 8 +-------
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLDefineParser.cxx b/projects/detector/private/gdml/GDMLDefineParser.cxx
index 8208e58..8c17e7a 100644
--- a/projects/detector/private/gdml/GDMLDefineParser.cxx
+++ b/projects/detector/private/gdml/GDMLDefineParser.cxx
@@ -212,7 +212,7 @@ void ResolveDefineInOrder(rapidxml::xml_node<>* gdml_node,
             if(name.empty()) continue;
             int coldim = 1;
             const char* cd = SafeAttrVal(node, "coldim");
-            if(cd[0] != '\0') { try { coldim = std::stoi(std::string(cd)); } catch(...) { coldim = 1; } }
+            if(cd[0] != '\0') { coldim = (int)std::lround(SafeParseDouble(cd, data.constants, data.matrices)); }
             if(coldim < 1) coldim = 1;
             std::string values_str = SafeAttrVal(node, "values");
             std::vector<double> values;
diff --git a/projects/detector/private/gdml/GDMLSolidParser.cxx b/projects/detector/private/gdml/GDMLSolidParser.cxx
index 7520134..d7905b2 100644
--- a/projects/detector/private/gdml/GDMLSolidParser.cxx
+++ b/projects/detector/private/gdml/GDMLSolidParser.cxx
@@ -176,13 +176,7 @@ std::shared_ptr<Geometry> ParsePolyhedra(SolidContext const & ctx) {
     int numSide = 0;
     std::string ns_str(SafeAttrVal(ctx.node, "numsides"));
     if(!ns_str.empty()) {
-        try {
-            numSide = std::stoi(ns_str);
-        } catch(std::invalid_argument &) {
-            numSide = 0;
-        } catch(std::out_of_range &) {
-            numSide = 0;
-        }
+        numSide = (int)std::lround(SafeParseDouble(ns_str.c_str(), ctx.data.constants));
     }
     if(numSide <= 0) return nullptr;
 
-- 
2.43.0


From 2705c65499f7f89f964ed9144d8858ff74d6aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 128/182] fix: names in nested GDML loops are generated with
 the values of all loop variables

---
 .../detector/private/gdml/GDMLPreprocess.cxx  | 43 +++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLPreprocess.cxx b/projects/detector/private/gdml/GDMLPreprocess.cxx
index 300482c..60f88c6 100644
--- a/projects/detector/private/gdml/GDMLPreprocess.cxx
+++ b/projects/detector/private/gdml/GDMLPreprocess.cxx
@@ -300,6 +300,20 @@ void EmitWarning(GDMLData & data, GDMLParseOptions const & options, std::string
     data.warnings.push_back(msg);
 }
 
+// True if name occurs in expr as a complete identifier.
+static bool MentionsIdentifier(std::string const & expr, std::string const & name) {
+    if(name.empty()) return false;
+    size_t pos = 0;
+    while((pos = expr.find(name, pos)) != std::string::npos) {
+        bool left_ok = (pos == 0 || !IsIdentChar(expr[pos - 1]));
+        size_t after = pos + name.size();
+        bool right_ok = (after >= expr.size() || !IsIdentChar(expr[after]));
+        if(left_ok && right_ok) return true;
+        pos = after;
+    }
+    return false;
+}
+
 // Substitute loop variable references in an attribute value string.
 // Two substitution modes following Geant4 convention:
 //   1. Bracket notation: [expr] is evaluated and replaced with the integer
@@ -315,6 +329,7 @@ static std::string SubstLoopVar(
     std::string const & val,
     std::string const & var_name,
     std::string const & var_value_str,
+    std::vector<std::string> const & inner_vars,
     std::unordered_map<std::string, double> const & constants,
     GDMLData & data) {
     std::string result = val;
@@ -325,6 +340,16 @@ static std::string SubstLoopVar(
         size_t end = result.find(']', pos + 1);
         if(end == std::string::npos) break;
         std::string expr = result.substr(pos + 1, end - pos - 1);
+        // A bracket that mentions the variable of a loop inside this one can
+        // only be evaluated when that loop is expanded.
+        bool needs_inner = false;
+        for(auto const & inner : inner_vars) {
+            if(MentionsIdentifier(expr, inner)) needs_inner = true;
+        }
+        if(needs_inner) {
+            pos = end + 1;
+            continue;
+        }
         try {
             double v = EvalExpression(expr, constants);
             long long iv = BracketInteger(v);
@@ -355,28 +380,38 @@ static std::string SubstLoopVar(
 }
 
 // Deep-clone an XML node and all its children/attributes into a document.
-// Performs loop variable substitution in all attribute values.
+// Performs loop variable substitution in all attribute values. inner_vars are
+// the variables of the loops between the expanded one and src.
 static rapidxml::xml_node<>* CloneNodeWithSubst(
     rapidxml::xml_document<> & doc,
     rapidxml::xml_node<>* src,
     std::string const & var_name,
     std::string const & var_value_str,
+    std::vector<std::string> inner_vars,
     std::unordered_map<std::string, double> const & constants,
     GDMLData & data) {
 
     auto* node = doc.allocate_node(src->type());
     node->name(src->name(), src->name_size());
+    bool is_loop = (std::strcmp(src->name(), "loop") == 0);
+    bool shadowed = false;  // a loop inside uses the same variable
+    for(auto const & inner : inner_vars) {
+        if(inner == var_name) shadowed = true;
+    }
 
     for(auto* attr = src->first_attribute(); attr; attr = attr->next_attribute()) {
         std::string val(attr->value(), attr->value_size());
-        val = SubstLoopVar(val, var_name, var_value_str, constants, data);
+        if(!shadowed && !(is_loop && std::strcmp(attr->name(), "for") == 0)) {
+            val = SubstLoopVar(val, var_name, var_value_str, inner_vars, constants, data);
+        }
         char* aname = doc.allocate_string(attr->name(), attr->name_size() + 1);
         char* aval = doc.allocate_string(val.c_str(), val.size() + 1);
         node->append_attribute(doc.allocate_attribute(aname, aval));
     }
 
+    if(is_loop) inner_vars.push_back(SafeAttrVal(src, "for"));
     for(auto* child = src->first_node(); child; child = child->next_sibling()) {
-        node->append_node(CloneNodeWithSubst(doc, child, var_name, var_value_str, constants, data));
+        node->append_node(CloneNodeWithSubst(doc, child, var_name, var_value_str, inner_vars, constants, data));
     }
     return node;
 }
@@ -465,7 +500,7 @@ void ExpandLoops(rapidxml::xml_document<> & doc,
             }
 
             for(auto* body = child->first_node(); body; body = body->next_sibling()) {
-                auto* cloned = CloneNodeWithSubst(doc, body, var_name, v_str, constants, data);
+                auto* cloned = CloneNodeWithSubst(doc, body, var_name, v_str, {}, constants, data);
                 top.parent->insert_node(child, cloned);
                 if(!first_cloned) first_cloned = cloned;
             }
-- 
2.43.0


From eda4b9a677b9973354b5ff74068afed581c1534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 129/182] fix: GDML loop variables are substituted exactly,
 negative values in parentheses

---
 projects/detector/private/gdml/GDMLPreprocess.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/gdml/GDMLPreprocess.cxx b/projects/detector/private/gdml/GDMLPreprocess.cxx
index 60f88c6..dae5bba 100644
--- a/projects/detector/private/gdml/GDMLPreprocess.cxx
+++ b/projects/detector/private/gdml/GDMLPreprocess.cxx
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cstring>
 #include <fstream>
+#include <iomanip>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -495,9 +496,11 @@ void ExpandLoops(rapidxml::xml_document<> & doc,
                 v_str = std::to_string(static_cast<long long>(v));
             } else {
                 std::ostringstream oss;
-                oss << v;
+                oss << std::setprecision(17) << v;
                 v_str = oss.str();
             }
+            // Keep expressions like "i^2" what they are for negative values
+            if(v < 0) v_str = "(" + v_str + ")";
 
             for(auto* body = child->first_node(); body; body = body->next_sibling()) {
                 auto* cloned = CloneNodeWithSubst(doc, body, var_name, v_str, {}, constants, data);
-- 
2.43.0


From 68ceeb4d770272d3f033973add3390936fe2cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 130/182] fix: GDML placements that are not imported are
 reported

---
 .../detector/private/gdml/GDMLStructureParser.cxx  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/projects/detector/private/gdml/GDMLStructureParser.cxx b/projects/detector/private/gdml/GDMLStructureParser.cxx
index 2fe1dd5..77fe846 100644
--- a/projects/detector/private/gdml/GDMLStructureParser.cxx
+++ b/projects/detector/private/gdml/GDMLStructureParser.cxx
@@ -143,6 +143,14 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
                 }
             }
 
+            auto* scale = pv->first_node("scale");
+            if(pv->first_node("scaleref")
+               || (scale && (   (scale->first_attribute("x") && ReadDoubleAttr(scale, "x", data.constants) != 1.0)
+                             || (scale->first_attribute("y") && ReadDoubleAttr(scale, "y", data.constants) != 1.0)
+                             || (scale->first_attribute("z") && ReadDoubleAttr(scale, "z", data.constants) != 1.0)))) {
+                EmitWarning(data, options, "physvol in volume '" + vol.name + "': scaled placement not supported; scale ignored");
+            }
+
             GDMLPlacement placement = ReadPlacement(
                 pv, "position", "positionref", "rotation", "rotationref", data);
             physvol.position = placement.position;
@@ -203,6 +211,12 @@ void ParseStructure(rapidxml::xml_node<>* structure_node, GDMLData & data, GDMLP
 
         parsePhysVols(vol_node, vol);
 
+        for(const char* unsupported : {"paramvol", "divisionvol"}) {
+            for(auto* node = vol_node->first_node(unsupported); node; node = node->next_sibling(unsupported)) {
+                EmitWarning(data, options, "<" + std::string(unsupported) + "> in volume '" + vol.name + "' not supported; skipping");
+            }
+        }
+
         for(auto* rv = vol_node->first_node("replicavol"); rv; rv = rv->next_sibling("replicavol")) {
             int ncopies = 0;
             {
-- 
2.43.0


From 90a922c8f47911fa91ce1c5c9b73df9f9b305e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 131/182] fix: entities and includes in GDML comments are not
 expanded

---
 projects/detector/private/GDMLParser.cxx      |  3 ++
 .../detector/private/gdml/GDMLParserPrivate.h |  1 +
 .../detector/private/gdml/GDMLPreprocess.cxx  | 28 +++++++++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/projects/detector/private/GDMLParser.cxx b/projects/detector/private/GDMLParser.cxx
index bbc6c2e..3db663c 100644
--- a/projects/detector/private/GDMLParser.cxx
+++ b/projects/detector/private/GDMLParser.cxx
@@ -213,6 +213,9 @@ GDMLData gdml::ParseGDMLFile(std::string const & filename, GDMLParseOptions cons
         }
     }
 
+    // Nothing inside a comment is to be expanded
+    content = gdml::StripComments(content);
+
     // Expand ENTITY references before XML parsing
     if(content.find("<!ENTITY") != std::string::npos || content.find("<!entity") != std::string::npos) {
         content = gdml::ExpandEntities(content, base_dir);
diff --git a/projects/detector/private/gdml/GDMLParserPrivate.h b/projects/detector/private/gdml/GDMLParserPrivate.h
index 007d1b4..b490193 100644
--- a/projects/detector/private/gdml/GDMLParserPrivate.h
+++ b/projects/detector/private/gdml/GDMLParserPrivate.h
@@ -142,6 +142,7 @@ GDMLZPlanes ReadZPlanes(rapidxml::xml_node<>* node,
                         GDMLData const & data);
 bool ValidateZPlaneMonotonicity(GDMLZPlanes const & planes);
 
+std::string StripComments(std::string const & content);
 std::string ExpandEntities(std::string const & content, std::string const & base_dir);
 std::string ExpandXIncludes(std::string const & content, std::string const & base_dir);
 void ExpandLoops(rapidxml::xml_document<> & doc,
diff --git a/projects/detector/private/gdml/GDMLPreprocess.cxx b/projects/detector/private/gdml/GDMLPreprocess.cxx
index dae5bba..7a1f413 100644
--- a/projects/detector/private/gdml/GDMLPreprocess.cxx
+++ b/projects/detector/private/gdml/GDMLPreprocess.cxx
@@ -13,6 +13,32 @@
 namespace siren {
 namespace detector {
 namespace gdml {
+// Remove XML comments.
+std::string StripComments(std::string const & content) {
+    std::string result;
+    result.reserve(content.size());
+    size_t pos = 0;
+    while(pos < content.size()) {
+        size_t start = content.find("<!--", pos);
+        size_t cdata = content.find("<![CDATA[", pos);
+        if(cdata < start) {
+            size_t end = content.find("]]>", cdata);
+            end = (end == std::string::npos) ? content.size() : end + 3;
+            result.append(content, pos, end - pos);
+            pos = end;
+            continue;
+        }
+        size_t end = (start == std::string::npos) ? start : content.find("-->", start + 4);
+        if(end == std::string::npos) {
+            result.append(content, pos, content.size() - pos);
+            break;
+        }
+        result.append(content, pos, start - pos);
+        pos = end + 3;
+    }
+    return result;
+}
+
 static std::vector<std::pair<std::string, std::string>> ParseEntityDeclarations(
         std::string const & content, std::string const & base_dir) {
     std::vector<std::pair<std::string, std::string>> decls;
@@ -143,6 +169,7 @@ std::string ExpandEntities(std::string const & content, std::string const & base
             std::string file_content((std::istreambuf_iterator<char>(ent_file)),
                                       std::istreambuf_iterator<char>());
             ent_file.close();
+            file_content = StripComments(file_content);
 
             size_t last_slash = ent_path.rfind('/');
             std::string ent_dir = (last_slash != std::string::npos) ?
@@ -270,6 +297,7 @@ static std::string ExpandXIncludesImpl(std::string const & content,
                 std::string inc_content((std::istreambuf_iterator<char>(inc_file)),
                                         std::istreambuf_iterator<char>());
                 inc_file.close();
+                inc_content = StripComments(inc_content);
 
                 std::string inc_dir = DirectoryName(inc_path, base_dir);
                 inc_content = ExpandEntities(inc_content, inc_dir);
-- 
2.43.0


From e8aa4f4a111ebb551ef72b66c9d242bfddb11119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 132/182] fix: missing and circular GDML includes are errors,
 not empty

---
 projects/detector/private/gdml/GDMLPreprocess.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLPreprocess.cxx b/projects/detector/private/gdml/GDMLPreprocess.cxx
index 7a1f413..ee891aa 100644
--- a/projects/detector/private/gdml/GDMLPreprocess.cxx
+++ b/projects/detector/private/gdml/GDMLPreprocess.cxx
@@ -291,9 +291,16 @@ static std::string ExpandXIncludesImpl(std::string const & content,
         std::string inc_tag = content.substr(inc_start, inc_end - inc_start);
         std::string href = ExtractQuotedAttribute(inc_tag, "href");
         std::string inc_path = ResolvePath(href, base_dir);
-        if(!inc_path.empty() && depth < MAX_XINCLUDE_DEPTH && !ContainsPath(include_stack, inc_path)) {
+        if(inc_path.empty()) {
+            throw std::runtime_error("GDML error: xi:include without href");
+        } else {
+            if(depth >= MAX_XINCLUDE_DEPTH || ContainsPath(include_stack, inc_path)) {
+                throw std::runtime_error("GDML error: circular or too deeply nested xi:include of " + inc_path);
+            }
             std::ifstream inc_file(inc_path.c_str(), std::ios::binary);
-            if(inc_file.is_open()) {
+            if(!inc_file.is_open()) {
+                throw std::runtime_error("GDML error: cannot open xi:include file " + inc_path);
+            } else {
                 std::string inc_content((std::istreambuf_iterator<char>(inc_file)),
                                         std::istreambuf_iterator<char>());
                 inc_file.close();
-- 
2.43.0


From 9ca5b5f25129f843f0e501259bbd59352b7bcb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 133/182] fix: references to GDML entities that cannot be
 resolved are errors

---
 projects/detector/private/GDMLParser.cxx       |  2 ++
 .../detector/private/gdml/GDMLParserPrivate.h  |  1 +
 .../detector/private/gdml/GDMLPreprocess.cxx   | 18 ++++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/projects/detector/private/GDMLParser.cxx b/projects/detector/private/GDMLParser.cxx
index 3db663c..855493e 100644
--- a/projects/detector/private/GDMLParser.cxx
+++ b/projects/detector/private/GDMLParser.cxx
@@ -226,6 +226,8 @@ GDMLData gdml::ParseGDMLFile(std::string const & filename, GDMLParseOptions cons
         content = gdml::ExpandXIncludes(content, base_dir);
     }
 
+    gdml::CheckEntities(content);
+
     // rapidxml requires a mutable, null-terminated buffer
     std::vector<char> buffer(content.begin(), content.end());
     buffer.push_back('\0');
diff --git a/projects/detector/private/gdml/GDMLParserPrivate.h b/projects/detector/private/gdml/GDMLParserPrivate.h
index b490193..a59cdbc 100644
--- a/projects/detector/private/gdml/GDMLParserPrivate.h
+++ b/projects/detector/private/gdml/GDMLParserPrivate.h
@@ -143,6 +143,7 @@ GDMLZPlanes ReadZPlanes(rapidxml::xml_node<>* node,
 bool ValidateZPlaneMonotonicity(GDMLZPlanes const & planes);
 
 std::string StripComments(std::string const & content);
+void CheckEntities(std::string const & content);
 std::string ExpandEntities(std::string const & content, std::string const & base_dir);
 std::string ExpandXIncludes(std::string const & content, std::string const & base_dir);
 void ExpandLoops(rapidxml::xml_document<> & doc,
diff --git a/projects/detector/private/gdml/GDMLPreprocess.cxx b/projects/detector/private/gdml/GDMLPreprocess.cxx
index ee891aa..f8232f5 100644
--- a/projects/detector/private/gdml/GDMLPreprocess.cxx
+++ b/projects/detector/private/gdml/GDMLPreprocess.cxx
@@ -211,6 +211,24 @@ std::string ExpandEntities(std::string const & content, std::string const & base
 }
 
 
+// Throw if the content refers to an entity that was not expanded (its file is
+// missing, or it is not one of those supported): the reference would be
+// dropped silently.
+void CheckEntities(std::string const & content) {
+    size_t pos = 0;
+    while((pos = content.find('&', pos)) != std::string::npos) {
+        size_t end = pos + 1;
+        while(end < content.size() && IsIdentChar(content[end])) ++end;
+        if(end > pos + 1 && end < content.size() && content[end] == ';' && IsIdentStart(content[pos + 1])) {
+            std::string name = content.substr(pos + 1, end - pos - 1);
+            if(name != "lt" && name != "gt" && name != "amp" && name != "quot" && name != "apos") {
+                throw std::runtime_error("GDML error: entity '&" + name + ";' cannot be resolved");
+            }
+        }
+        pos = end;
+    }
+}
+
 static size_t FindXIncludeEnd(std::string const & content, size_t inc_start) {
     size_t self_close = content.find("/>", inc_start);
     size_t explicit_close = content.find("</xi:include>", inc_start);
-- 
2.43.0


From 410f53a360bbd5b95a3f3972bcfffdd82fc1f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 134/182] fix: GDML arb8 solids with clockwise vertices are not
 inside out

---
 projects/detector/private/gdml/GDMLSolidParser.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/projects/detector/private/gdml/GDMLSolidParser.cxx b/projects/detector/private/gdml/GDMLSolidParser.cxx
index d7905b2..04d5099 100644
--- a/projects/detector/private/gdml/GDMLSolidParser.cxx
+++ b/projects/detector/private/gdml/GDMLSolidParser.cxx
@@ -334,6 +334,7 @@ std::shared_ptr<Geometry> ParseArb8(SolidContext const & ctx) {
     double dz = L(ctx, "dz");
     if(dz <= 0) return nullptr;
 
+    // Both orders of the vertices are in use (Geant4's is clockwise)
     static const char* x_attrs[8] = {"v1x", "v2x", "v3x", "v4x", "v5x", "v6x", "v7x", "v8x"};
     static const char* y_attrs[8] = {"v1y", "v2y", "v3y", "v4y", "v5y", "v6y", "v7y", "v8y"};
 
@@ -346,6 +347,16 @@ std::shared_ptr<Geometry> ParseArb8(SolidContext const & ctx) {
             z);
     }
 
+    double signed_area = 0;
+    for(int i = 0; i < 8; ++i) {
+        int j = (i % 4 == 3) ? i - 3 : i + 1;
+        signed_area += verts[i].GetX() * verts[j].GetY() - verts[j].GetX() * verts[i].GetY();
+    }
+    if(signed_area < 0) {
+        std::swap(verts[1], verts[3]);
+        std::swap(verts[5], verts[7]);
+    }
+
     std::vector<std::array<math::Vector3D, 3>> triangles;
     triangles.reserve(12);
 
-- 
2.43.0


From 3413205b6804caa491cbdf02e333545db212c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:18 +0000
Subject: [PATCH 135/182] fix: a GDML xtru that cannot be represented is
 reported

---
 .../detector/private/gdml/GDMLSolidParser.cxx   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/projects/detector/private/gdml/GDMLSolidParser.cxx b/projects/detector/private/gdml/GDMLSolidParser.cxx
index 04d5099..08c30b5 100644
--- a/projects/detector/private/gdml/GDMLSolidParser.cxx
+++ b/projects/detector/private/gdml/GDMLSolidParser.cxx
@@ -219,6 +219,23 @@ std::shared_ptr<Geometry> ParseXtru(SolidContext const & ctx) {
     }
 
     if(polygon.empty() || zsections.empty()) return nullptr;
+
+    // ExtrPoly is the extrusion of a convex polygon
+    bool left = false;
+    bool right = false;
+    for(size_t i = 0; i < polygon.size(); ++i) {
+        auto const & a = polygon[i];
+        auto const & b = polygon[(i + 1) % polygon.size()];
+        auto const & c = polygon[(i + 2) % polygon.size()];
+        double turn = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]);
+        double tolerance = 1e-9 * std::hypot(b[0] - a[0], b[1] - a[1]) * std::hypot(c[0] - b[0], c[1] - b[1]);
+        if(turn > tolerance) left = true;
+        if(turn < -tolerance) right = true;
+    }
+    if(left && right) {
+        EmitWarning(ctx.data, ctx.options,
+            "xtru '" + ctx.name + "' is not convex; it is imported as a convex solid");
+    }
     return ExtrPoly(polygon, zsections).create();
 }
 
-- 
2.43.0


From f6b08d6d97f29d3e46620371fb925c26b350a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:29 +0000
Subject: [PATCH 136/182] fix: a GDML component named with an address is the
 one defined with that address

---
 projects/detector/private/gdml/GDMLParserPrivate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLParserPrivate.h b/projects/detector/private/gdml/GDMLParserPrivate.h
index a59cdbc..ef8f55f 100644
--- a/projects/detector/private/gdml/GDMLParserPrivate.h
+++ b/projects/detector/private/gdml/GDMLParserPrivate.h
@@ -189,9 +189,12 @@ public:
         }
     }
 
-    // Resolve a reference name to its flattened name for the most recent
-    // instance. Strips pointer suffix first.
+    // Resolve a reference name to its flattened name: the instance defined
+    // with that address if there is one, otherwise the most recent instance
+    // of the stripped name.
     std::string Resolve(std::string const & ref_name) const {
+        auto ait = aliases_.find(ref_name);
+        if(ait != aliases_.end()) return ait->second;
         std::string name = StripPointerSuffix(ref_name, strip_);
         auto it = counts_.find(name);
         if(it != counts_.end()) {
-- 
2.43.0


From 52131b2f460c81720c7971991731e7972cb87825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:29 +0000
Subject: [PATCH 137/182] fix: an operand of a GDML boolean named with an
 address is the solid defined with that address

---
 .../detector/private/gdml/GDMLParserPrivate.h |  5 +++
 .../detector/private/gdml/GDMLSolidParser.cxx | 43 +++++++++++++------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/projects/detector/private/gdml/GDMLParserPrivate.h b/projects/detector/private/gdml/GDMLParserPrivate.h
index ef8f55f..21b232f 100644
--- a/projects/detector/private/gdml/GDMLParserPrivate.h
+++ b/projects/detector/private/gdml/GDMLParserPrivate.h
@@ -224,6 +224,11 @@ public:
         return nullptr;
     }
 
+    // True if an item was stored under this name with its pointer suffix.
+    bool HasAlias(std::string const & original_name) const {
+        return aliases_.count(original_name) > 0;
+    }
+
     // Instance count for a stripped name.
     int Count(std::string const & name) const {
         auto it = counts_.find(name);
diff --git a/projects/detector/private/gdml/GDMLSolidParser.cxx b/projects/detector/private/gdml/GDMLSolidParser.cxx
index 08c30b5..013831c 100644
--- a/projects/detector/private/gdml/GDMLSolidParser.cxx
+++ b/projects/detector/private/gdml/GDMLSolidParser.cxx
@@ -446,7 +446,21 @@ void ParseAllSolids(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLParseO
         solid_tracker.Store(name, geo, geo_eq);
     };
 
+    // Names as written: a reference with an address to a solid that is defined
+    // further down must not be resolved to another solid of the same base name.
+    std::unordered_set<std::string> written_names;
+    for(auto* section : solids_sections) {
+        for(auto* node = section->first_node(); node; node = node->next_sibling()) {
+            written_names.insert(SafeAttrVal(node, "name"));
+        }
+    }
+    auto defined_later = [&](std::string const & name) {
+        return name != StripPointerSuffix(name, options.strip_pointer_suffixes)
+            && written_names.count(name) && !solid_tracker.HasAlias(name);
+    };
+
     auto lookupSolid = [&](std::string const & name) -> GeoPtr {
+        if(defined_later(name)) return nullptr;
         auto const * p = solid_tracker.Lookup(name);
         return p ? *p : nullptr;
     };
@@ -476,6 +490,8 @@ void ParseAllSolids(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLParseO
         std::string second_ref;
         int first_instance;
         int second_instance;
+        std::string first_name;    // the references as written
+        std::string second_name;
     };
 
     std::vector<DeferredBoolean> deferred;
@@ -527,6 +543,8 @@ void ParseAllSolids(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLParseO
             db.name = name;
             db.first_ref = first_key;
             db.second_ref = second_key;
+            db.first_name = first_ref;
+            db.second_name = second_ref;
             db.first_instance = left ? (solid_tracker.Count(first_key) - 1) : 0;
             db.second_instance = right ? (solid_tracker.Count(second_key) - 1) : 0;
             deferred.push_back(db);
@@ -539,15 +557,18 @@ void ParseAllSolids(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLParseO
     std::unordered_map<std::string, std::vector<size_t>> dependents;
     std::vector<size_t> ready;
 
-    auto isAvailable = [&](std::string const & ref, int instance) -> bool {
+    auto operand = [&](std::string const & name, std::string const & ref, int instance) -> GeoPtr {
+        if(defined_later(name)) return nullptr;
+        if(solid_tracker.HasAlias(name)) return lookupSolid(name);
         auto it = solid_instances.find(ref);
-        return it != solid_instances.end() && instance < (int)it->second.size();
+        if(it == solid_instances.end() || instance >= (int)it->second.size()) return nullptr;
+        return it->second[instance];
     };
 
     for(size_t i = 0; i < deferred.size(); ++i) {
         auto & db = deferred[i];
-        bool have_first = isAvailable(db.first_ref, db.first_instance);
-        bool have_second = isAvailable(db.second_ref, db.second_instance);
+        bool have_first = operand(db.first_name, db.first_ref, db.first_instance) != nullptr;
+        bool have_second = operand(db.second_name, db.second_ref, db.second_instance) != nullptr;
         if(have_first && have_second) {
             ready.push_back(i);
         } else {
@@ -562,14 +583,8 @@ void ParseAllSolids(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLParseO
         auto & db = deferred[idx];
         if(db.node == nullptr) continue;
 
-        auto f_it = solid_instances.find(db.first_ref);
-        auto s_it = solid_instances.find(db.second_ref);
-        if(f_it == solid_instances.end() || s_it == solid_instances.end()) continue;
-        if(db.first_instance >= (int)f_it->second.size()) continue;
-        if(db.second_instance >= (int)s_it->second.size()) continue;
-
-        auto left = f_it->second[db.first_instance];
-        auto right_base = s_it->second[db.second_instance];
+        auto left = operand(db.first_name, db.first_ref, db.first_instance);
+        auto right_base = operand(db.second_name, db.second_ref, db.second_instance);
         if(!left || !right_base) continue;
 
         BooleanOperation op = BooleanOperationFromTag(std::string(db.node->name()));
@@ -588,8 +603,8 @@ void ParseAllSolids(rapidxml::xml_node<>* root_node, GDMLData & data, GDMLParseO
             for(size_t di : dep_it->second) {
                 if(deferred[di].node == nullptr) continue;
                 auto & ddb = deferred[di];
-                if(isAvailable(ddb.first_ref, ddb.first_instance)
-                   && isAvailable(ddb.second_ref, ddb.second_instance)) {
+                if(operand(ddb.first_name, ddb.first_ref, ddb.first_instance)
+                   && operand(ddb.second_name, ddb.second_ref, ddb.second_instance)) {
                     ready.push_back(di);
                 }
             }
-- 
2.43.0


From 79fdd59e477d497cd4561783adc5e23ec62e1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 138/182] fix: refuse detector model lines whose density values
 are missing or not numbers

---
 projects/detector/private/DetectorModel.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index 7e529bf..cbad394 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -106,6 +106,12 @@ public:
         return sum;
     }
 };
+
+// Every value of a detector model line has to be there and be a number
+void RequireValues(std::stringstream const & ss) {
+    if(ss.fail())
+        throw(std::runtime_error("Missing or invalid value on detector model line:\n" + ss.str()));
+}
 }
 
 bool DetectorSector::operator==(DetectorSector const & o) const {
@@ -399,6 +405,7 @@ std::shared_ptr<siren::detector::DensityDistribution> DetectorModel::ParseDensit
     if(distribution_type.find("constant") != std::string::npos) {
         double param;
         ss >> param;
+        RequireValues(ss);
         density = ConstantDensityDistribution(param).create();
     } else if (distribution_type.find("radial_polynomial") != std::string::npos) {
         double xc, yc, zc;
@@ -408,11 +415,13 @@ std::shared_ptr<siren::detector::DensityDistribution> DetectorModel::ParseDensit
 
         int nparams;
         ss >> nparams;
+        RequireValues(ss);
 
         double param;
         std::vector<double> params;
         for(int i=0; i<nparams; ++i) {
             ss >> param;
+            RequireValues(ss);
             params.push_back(param);
         }
         density = RadialAxisPolynomialDensityDistribution(radial_ax, params).create();
-- 
2.43.0


From c72f064e539b6e0b9e6146b8de1f47970ece301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 139/182] fix: refuse detector model and fiducial volume lines
 whose shape values are missing or not numbers

---
 projects/detector/private/DetectorModel.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index cbad394..c7885be 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -311,6 +311,7 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
     ss >> shape;
     ss >> xc >> yc >> zc;
     ss >> alpha >> beta >> gamma;
+    RequireValues(ss);
     Placement placement(Vector3D(xc,yc,zc), QFromZXZr(alpha,beta,gamma));
 
     std::shared_ptr<geometry::Geometry> geo;
@@ -318,26 +319,31 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
     if(shape.find("sphere")!=std::string::npos) {
         double radius; // For Sphere shapes
         ss >> radius;
+        RequireValues(ss);
         geo = Sphere(placement, radius, 0).create();
     }
     else if(shape.find("box")!=std::string::npos) {
         double dx, dy, dz; // For Box shapes
         ss >> dx >> dy >> dz;
+        RequireValues(ss);
         geo = Box(placement, dx, dy, dz).create();
     }
     else if(shape.find("cylinder")!=std::string::npos) {
         double _or, ir, z; // For Cylinder shapes
         ss >> _or >> ir >> z;
+        RequireValues(ss);
         geo = Cylinder(placement, _or, ir, z).create();
     }
     else if(shape.find("cone")!=std::string::npos) {
         double rmin1, rmax1, rmin2, rmax2, z;
         ss >> rmin1 >> rmax1 >> rmin2 >> rmax2 >> z;
+        RequireValues(ss);
         geo = Cone(placement, rmin1, rmax1, rmin2, rmax2, z).create();
     }
     else if(shape.find("trd")!=std::string::npos) {
         double dx1, dx2, dy1, dy2, dz;
         ss >> dx1 >> dx2 >> dy1 >> dy2 >> dz;
+        RequireValues(ss);
         geo = Trd(placement, dx1, dx2, dy1, dy2, dz).create();
     }
     else if(shape.find("extr")!=std::string::npos) {
@@ -350,16 +356,20 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseGeometryObject(st
         std::vector<double> polyVert;
         std::vector<ExtrPoly::ZSection> zsecs;
         ss >> nverts;
+        RequireValues(ss);
         for (int i = 0; i < nverts; ++i){
             ss >> v1 >> v2;
+            RequireValues(ss);
             polyVert.push_back(v1);
             polyVert.push_back(v2);
             poly.push_back(polyVert);
             polyVert.clear();
         }
         ss >> nzsec;
+        RequireValues(ss);
         for (int i = 0; i < nzsec; ++i){
             ss >> zpos >> off1 >> off2 >> scale;
+            RequireValues(ss);
             offset[0] = off1;
             offset[1] = off2;
             zsecs.push_back(ExtrPoly::ZSection(zpos,offset,scale));
-- 
2.43.0


From 25078224c2454e1033a48bdc996f7dc7615c26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:56 +0000
Subject: [PATCH 140/182] fix: read the detector position without uninitialised
 coordinates or rotation angles

---
 projects/detector/private/DetectorModel.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index c7885be..a9cf3ba 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -450,6 +450,8 @@ std::shared_ptr<siren::detector::DensityDistribution> DetectorModel::ParseDensit
 std::tuple<siren::math::Vector3D, siren::math::Quaternion> DetectorModel::ParseDetector(std::stringstream & ss) {
     std::string type, line;
     std::getline(ss, line);
+    // eliminate data after first #
+    line = line.substr(0, line.find('#'));
     ss.clear(); ss.str(line);
 
     ss >> type;
@@ -462,15 +464,18 @@ std::tuple<siren::math::Vector3D, siren::math::Quaternion> DetectorModel::ParseD
     }
     double x0, y0, z0; // Coordinates of the center of the detector
     ss >> x0 >> y0 >> z0;
+    RequireValues(ss);
     // Set the detector origin
     siren::math::Vector3D detector_origin(x0, y0, z0);
 
-    bool is_empty = ss.rdbuf()->in_avail() == 0;
+    // The rotation is optional, and blanks at the end of the line are not one
+    bool is_empty = (ss >> std::ws).eof();
 
     siren::math::Quaternion detector_rotation;
     if(not is_empty) {
         double alpha, beta, gamma; // Euler Angles of shape rotation
         ss >> alpha >> beta >> gamma;
+        RequireValues(ss);
         detector_rotation = QFromZXZr(alpha, beta, gamma);
     }
     return {detector_origin, detector_rotation};
-- 
2.43.0


From e10bb3ef23274e98bbd15d3aa8bdb2319951ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:57 +0000
Subject: [PATCH 141/182] fix: rotate a fiducial volume given in geometry
 coordinates into the detector frame

---
 projects/detector/private/DetectorModel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/detector/private/DetectorModel.cxx b/projects/detector/private/DetectorModel.cxx
index a9cf3ba..c0f2c5e 100644
--- a/projects/detector/private/DetectorModel.cxx
+++ b/projects/detector/private/DetectorModel.cxx
@@ -525,7 +525,7 @@ std::shared_ptr<siren::geometry::Geometry> DetectorModel::ParseFiducialVolume(st
     if(not detector_coords) {
         Placement p = geo->GetPlacement();
         p.SetPosition(detector_quaternion.rotate(p.GetPosition() - detector_origin, true));
-        p.SetQuaternion(detector_quaternion.rotate(p.GetQuaternion(), true));
+        p.SetQuaternion(detector_quaternion.conjugated() * p.GetQuaternion());
         geo->SetPlacement(p);
     }
     return geo;
-- 
2.43.0


From 7672621fdb0cf680471f50249d33c16d4a5d756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:05 +0000
Subject: [PATCH 142/182] fix: keep the pre-release label of a version written
 in upper case

---
 python/_util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/_util.py b/python/_util.py
index 7c27864..07b03ba 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -335,11 +335,12 @@ def normalize_version(version):
     if d["pre"] is not None:
         if d["pre_l"] is not None:
             # Add pre-release label
-            if d["pre_l"] in ["a", "alpha"]:
+            pre_l = d["pre_l"].lower()
+            if pre_l in ["a", "alpha"]:
                 n_version += "a"
-            elif d["pre_l"] in ["b", "beta"]:
+            elif pre_l in ["b", "beta"]:
                 n_version += "b"
-            elif d["pre_l"] in ["c", "rc", "pre", "preview"]:
+            elif pre_l in ["c", "rc", "pre", "preview"]:
                 n_version += "rc"
             # Add pre-release number
             if d["pre_n"] is not None:
-- 
2.43.0


From 055dc03968c7cd7a4e0299af4a9c42b108740f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:05 +0000
Subject: [PATCH 143/182] fix: normalise an implicit pre-, post- or dev-release
 number to 0

---
 python/_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/_util.py b/python/_util.py
index 07b03ba..36a6eb4 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -345,6 +345,8 @@ def normalize_version(version):
             # Add pre-release number
             if d["pre_n"] is not None:
                 n_version += str(int(d["pre_n"]))
+            else:
+                n_version += "0"
 
     # Add post-release segment
     if d["post"] is not None:
@@ -354,6 +356,8 @@ def normalize_version(version):
             n_version += str(int(d["post_n1"]))
         elif d["post_n2"] is not None:
             n_version += str(int(d["post_n2"]))
+        else:
+            n_version += "0"
 
     # Add dev-release segment
     if d["dev"] is not None:
@@ -361,6 +365,8 @@ def normalize_version(version):
         # Add dev-release number
         if d["dev_n"] is not None:
             n_version += str(int(d["dev_n"]))
+        else:
+            n_version += "0"
 
     # Add local segment
     if d["local"] is not None:
-- 
2.43.0


From 990c8ea7ceb33f75228725aa4050764b8fb72808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:05 +0000
Subject: [PATCH 144/182] fix: normalise all separators in the local part of a
 version

---
 python/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/_util.py b/python/_util.py
index 36a6eb4..a5f85c8 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -373,7 +373,7 @@ def normalize_version(version):
         n_version += "+"
         segments = []
         # Local segment can contain letters and numbers
-        for s in d["local"].lower().split("."):
+        for s in re.split(r"[-_.]", d["local"].lower()):
             # Remove leading zeros from each segment if it is a number
             try:
                 segments.append(str(int(s)))
-- 
2.43.0


From ddf62221de05fbaf74e100753b6d20bdd0942db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:14 +0000
Subject: [PATCH 145/182] fix: rank a development release below the
 pre-releases of the same version

---
 python/_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/_util.py b/python/_util.py
index a5f85c8..cef6ddb 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -424,6 +424,9 @@ def tokenize_version(version):
             tokens["pre"] = tuple(pre_token)
         else:
             tokens["pre"] = tuple(pre_token)
+    elif d["dev"] is not None and d["post"] is None:
+        # A development version of a release comes before its pre-releases
+        tokens["pre"] = (-1,)
     else:
         # Pre-release segment starts with 1 if not present to indicate that it is not present
         # Because a release version comes after a pre-release version
-- 
2.43.0


From cbc566e26e112e63fdac83a64ef02e3b6628e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:11 +0000
Subject: [PATCH 146/182] fix: rank versions irrespective of trailing zeros in
 the release

---
 python/_util.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/_util.py b/python/_util.py
index cef6ddb..ae4de8b 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -481,13 +481,20 @@ def tokenize_version(version):
         tokens["local"] = (0,)
 
     # Return the tokenized version
+    # Trailing zeros of the release do not matter (2 and 2.0 are the same release),
+    # so they can only decide between versions that are otherwise the same
+    release = tokens["release"]
+    while len(release) > 1 and release[-1] == 0:
+        release = release[:-1]
+
     token_list = [
         tokens["epoch"],
-        tokens["release"],
+        release,
         tokens["pre"],
         tokens["post"],
         tokens["dev"],
         tokens["local"],
+        tokens["release"],
     ]
 
     return tuple(token_list)
-- 
2.43.0


From a220f2fc7a9dcc054d734c245929bd6a607113aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:46 +0000
Subject: [PATCH 147/182] fix: name the first version of an existing model
 folder v1

---
 python/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/_util.py b/python/_util.py
index ae4de8b..dd44553 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -661,7 +661,7 @@ def _get_model_path(model_name, prefix=None, suffix=None, is_file=True, must_exi
             raise ValueError(f"No model folders found for {model_search_name}\nSearched in {model_dir}")
         else:
             if version is None:
-                version = "v1"
+                version = "1"
 
             model_dir = os.path.join(model_dir, f"{found_model_name}-v{version}")
             return model_dir
-- 
2.43.0


From 465d7aa1afaebf65c41436cd6897200f432ef97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:46 +0000
Subject: [PATCH 148/182] fix: do not return the folder of another version for
 a version that is still to be created

---
 python/_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/_util.py b/python/_util.py
index dd44553..42133eb 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -686,6 +686,8 @@ def _get_model_path(model_name, prefix=None, suffix=None, is_file=True, must_exi
     if len(matching_models) == 0:
         if must_exist and version is not None:
             raise ValueError(f"No model folders found for {model_search_name} with version {version}\nSearched in {model_dir}")
+        if not must_exist and (version is not None or len(models_and_versions) == 0):
+            return os.path.join(model_dir, f"{found_model_name}-v{'1' if version is None else version}")
 
     found_model_subfolder, subfolder_version = max(models_and_versions, key=lambda x: tokenize_version(x[1]))
 
-- 
2.43.0


From ca22312e36c669fa078b3d6c5ce4ecbdd277d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:26 +0000
Subject: [PATCH 149/182] fix: count the secondaries and interactions of each
 saved event itself

---
 python/_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/_util.py b/python/_util.py
index 42133eb..07078b5 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -1226,8 +1226,8 @@ def SaveEvents(events,
                                                                datum.record.secondary_momenta)):
                 datasets["secondary_types"][-1][-1].append(int(sec_type))
                 datasets["secondary_momenta"][-1][-1].append(np.array(sec_momenta,dtype=float))
-            datasets["num_secondaries"][-1].append(isec+1)
-        datasets["num_interactions"].append(id+1)
+            datasets["num_secondaries"][-1].append(len(datasets["secondary_types"][-1][-1]))
+        datasets["num_interactions"].append(len(parent_indices))
 
     # save events
     ak_array = ak.Array(datasets)
-- 
2.43.0


From a47f7cfcc367789b9c265e924442e62c29c16cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:26 +0000
Subject: [PATCH 150/182] fix: recognise a file pooled twice through a symbolic
 link

---
 python/_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/_util.py b/python/_util.py
index 07078b5..ea0f5e6 100644
--- a/python/_util.py
+++ b/python/_util.py
@@ -1544,7 +1544,7 @@ def combine_and_export_hepmc3(sets, out_path, options=None):
     reference_phys_sig = None
     reference_sig = None
     all_injectors = []
-    # Dedup injectors by the resolved absolute path of the .siren_weighter file
+    # Dedup injectors by the resolved (absolute, symlink-free) path of the .siren_weighter file
     # they were loaded from: two set entries pointing at the same weighter file
     # (a run split across multiple SaveEvents calls, or a set listed twice)
     # carry the SAME underlying injector(s). Pooling EventWeight = 1 /
@@ -1587,7 +1587,7 @@ def combine_and_export_hepmc3(sets, out_path, options=None):
         # twice. Distinct event files that share one injector are the intended
         # split-run case and are NOT skipped here -- only their shared injector is
         # deduplicated below.
-        resolved_events_path = os.path.abspath(events_path)
+        resolved_events_path = os.path.realpath(events_path)
         if resolved_events_path in seen_events_paths:
             logger.warning(
                 "combine_and_export_hepmc3: set %d's events file '%s' was already "
@@ -1650,7 +1650,7 @@ def combine_and_export_hepmc3(sets, out_path, options=None):
         # (same set listed twice, or a run split across multiple SaveEvents
         # calls that all point at the same .siren_weighter) would otherwise
         # double-count that injector's term in the pooled denominator.
-        resolved_weighter_path = os.path.abspath(weighter_path)
+        resolved_weighter_path = os.path.realpath(weighter_path)
         if resolved_weighter_path in seen_weighter_paths:
             logger.warning(
                 "combine_and_export_hepmc3: set %d's weighter file '%s' was "
-- 
2.43.0


From 94f4bad0d0f82f27cbcad8b97915b8dafcacd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:27 +0000
Subject: [PATCH 151/182] fix: count the interactions of each event saved by
 the controller itself

---
 python/SIREN_Controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/SIREN_Controller.py b/python/SIREN_Controller.py
index 90edb25..e67fc07 100644
--- a/python/SIREN_Controller.py
+++ b/python/SIREN_Controller.py
@@ -750,7 +750,7 @@ class SIREN_Controller:
                     datasets["secondary_momenta"][-1][-1].append(np.array(sec_momenta,dtype=float))
                     datasets["secondary_times"][-1][-1].append(sec_time)
                 datasets["num_secondaries"][-1].append(len(datum.record.secondary_momenta))
-            datasets["num_interactions"].append(id+1)
+            datasets["num_interactions"].append(len(parent_indices))
 
         # save injector and weighter (writes <filename>.siren_injector and
         # <filename>.siren_weighter alongside the event file). These are the
-- 
2.43.0


From 1ed979211d5969aed7930de47b5d7249ed9a503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 152/182] fix: let the seed of an initialised Python injector
 be changed

---
 python/Injector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/Injector.py b/python/Injector.py
index 0454ff4..7e63c0c 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -174,7 +174,7 @@ class Injector:
     def seed(self, seed):
         self.__seed = seed
         if self.__injector is not None:
-            self.__injector.GetRandom().set_seed(seed)
+            self.__injector.SetRandom(_utilities.SIREN_random(seed))
 
     @property
     def number_of_events(self):
-- 
2.43.0


From bd2fc687d8b7c640d18bcd3596ebdaf4de58ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 153/182] fix: restore the secondary processes of a pickled or
 loaded Python injector

---
 python/Injector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/Injector.py b/python/Injector.py
index 7e63c0c..6e0780b 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -162,7 +162,7 @@ class Injector:
 
         self.__secondary_interactions = {}
         self.__secondary_injection_distributions = {}
-        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap():
+        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap().items():
             self.__secondary_interactions[secondary_type] = list(secondary_process.interactions.GetCrossSections()) + list(secondary_process.interactions.GetDecays())
             self.__secondary_injection_distributions[secondary_type] = list(secondary_process.distributions)
 
@@ -330,7 +330,7 @@ class Injector:
 
         self.__secondary_interactions = {}
         self.__secondary_injection_distributions = {}
-        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap():
+        for secondary_type, secondary_process in self.__injector.GetSecondaryProcessMap().items():
             self.__secondary_interactions[secondary_type] = list(secondary_process.interactions.GetCrossSections()) + list(secondary_process.interactions.GetDecays())
             self.__secondary_injection_distributions[secondary_type] = list(secondary_process.distributions)
 
-- 
2.43.0


From 18b9bf4695f7293b3177707ed9a09a3d94b05ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 154/182] fix: let the secondary interactions of an initialised
 Python injector be changed

---
 python/Injector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/Injector.py b/python/Injector.py
index 6e0780b..5d5f003 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -249,7 +249,9 @@ class Injector:
             if current_secondary_types != new_secondary_types:
                 raise ValueError("Cannot change the secondary types after initialization")
             for secondary_type, secondary_process in secondary_processes.items():
-                secondary_process.interactions = secondary_interactions[secondary_type]
+                secondary_process.interactions = _interactions.InteractionCollection(
+                    secondary_type, secondary_interactions[secondary_type]
+                )
         self.__secondary_interactions = secondary_interactions
 
     @property
-- 
2.43.0


From 774f12574b4c43ed14e80f61c6fb8267b258a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 155/182] fix: let the secondary distributions of an
 initialised Python injector be changed

---
 python/Injector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/Injector.py b/python/Injector.py
index 5d5f003..95f540c 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -261,13 +261,13 @@ class Injector:
     @secondary_injection_distributions.setter
     def secondary_injection_distributions(self, secondary_injection_distributions):
         if self.__injector is not None:
-            secondary_processes = self.__injector.GetSecondaryProcesses()
+            secondary_processes = self.__injector.GetSecondaryProcessMap()
             current_secondary_types = sorted(list(secondary_processes.keys()))
             new_secondary_types = sorted(list(secondary_injection_distributions.keys()))
             if current_secondary_types != new_secondary_types:
                 raise ValueError("Cannot change the secondary types after initialization")
-            for secondary_type, secondary_process in secondary_injection_distributions.items():
-                secondary_process.distributions = secondary_distributions[secondary_type]
+            for secondary_type, secondary_process in secondary_processes.items():
+                secondary_process.distributions = secondary_injection_distributions[secondary_type]
         self.__secondary_injection_distributions = secondary_injection_distributions
 
     @property
-- 
2.43.0


From 7352b94d23faad3ac1cfca395f06fa0255e310a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 156/182] fix: initialise a Python injector that is asked for a
 record or saved before its first event

---
 python/Injector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/Injector.py b/python/Injector.py
index 95f540c..0dd21c9 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -282,6 +282,8 @@ class Injector:
 
     @wraps(_Injector.NewRecord)
     def new_record(self):
+        if self.__injector is None:
+            self.__initialize_injector()
         return self.__injector.NewRecord()
     new_record.__name__ = "new_record"
     new_record.__doc__ = _Injector.NewRecord.__doc__.replace("NewRecord", "new_record")
@@ -315,6 +317,8 @@ class Injector:
 
     @wraps(_Injector.SaveInjector)
     def save(self, filename):
+        if self.__injector is None:
+            self.__initialize_injector()
         self.__injector.SaveInjector(filename)
     save.__name__ = "save"
     save.__doc__ = _Injector.SaveInjector.__doc__.replace("SaveInjector", "save")
-- 
2.43.0


From 7730e853dbe37db08b7b80c32295fded2a18ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 157/182] fix: initialise a Python injector that is pickled
 before its first event

---
 python/Injector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/Injector.py b/python/Injector.py
index 0dd21c9..ea3849b 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -139,6 +139,8 @@ class Injector:
 
     # Custom method to retrieve the internal state for pickling
     def __getstate__(self):
+        if self.__injector is None:
+            self.__initialize_injector()
         # The seed and stopping condition are the only things we cannot serialize
         state = (self.__seed, self.__stopping_condition, self.__injector.__getstate__())
         return state
-- 
2.43.0


From 199faced765a2a82dd23c03584d864304bd4198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 158/182] fix: use the position distribution among the new
 distributions of a Python injector

---
 python/Injector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/Injector.py b/python/Injector.py
index ea3849b..2d50616 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -236,6 +236,8 @@ class Injector:
         if self.__injector is not None:
             primary_process = self.__injector.GetPrimaryProcess()
             primary_process.distributions = primary_injection_distributions
+            # the injector keeps the position distribution of the process it was given
+            self.__injector.SetPrimaryProcess(primary_process)
         self.__primary_injection_distributions = primary_injection_distributions
 
     @property
-- 
2.43.0


From 115d98548d1458089a41f411e1bb4ab89a827514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:31 +0000
Subject: [PATCH 159/182] fix: load a Python injector that has not been
 initialised

---
 python/Injector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/Injector.py b/python/Injector.py
index 2d50616..4162ac2 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -329,7 +329,15 @@ class Injector:
 
     @wraps(_Injector.LoadInjector)
     def load(self, filename):
-        self.__injector.LoadInjector(filename)
+        if self.__injector is None:
+            if self.__seed is None:
+                random = _utilities.SIREN_random()
+                self.__seed = random.get_seed()
+            else:
+                random = _utilities.SIREN_random(self.__seed)
+            self.__injector = _Injector(0, filename, random)
+        else:
+            self.__injector.LoadInjector(filename)
         # Update Python object state after loading
         self.__number_of_events = self.__injector.EventsToInject()
         self.__detector_model = self.__injector.GetDetectorModel()
-- 
2.43.0


From 53f5e4bf905348b84a808481d2d8153ed70b7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:19 +0000
Subject: [PATCH 160/182] fix: give a pickled Python injector its source of
 random numbers and its stopping condition

---
 python/Injector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/Injector.py b/python/Injector.py
index 4162ac2..2161ede 100644
--- a/python/Injector.py
+++ b/python/Injector.py
@@ -155,6 +155,10 @@ class Injector:
         if self.__injector is None:
             raise TypeError("Failed to create C++ Injector object")
         self.__injector.__setstate__(injector_state)
+        # The state of the C++ class has neither a source of random numbers nor a stopping condition
+        self.__injector.SetRandom(_utilities.SIREN_random(self.__seed))
+        if self.__stopping_condition is not None:
+            self.__injector.SetStoppingCondition(self.__stopping_condition)
         self.__number_of_events = self.__injector.EventsToInject()
         self.__detector_model = self.__injector.GetDetectorModel()
         primary_process = self.__injector.GetPrimaryProcess()
-- 
2.43.0


From d008d2664c36aea0bb9d7da8655793dac918dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:55 +0000
Subject: [PATCH 161/182] fix: keep the site sectors that are to be inserted
 before a layer the Earth model does not have

---
 python/earth/sectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/earth/sectors.py b/python/earth/sectors.py
index 45fa478..4a2c95e 100644
--- a/python/earth/sectors.py
+++ b/python/earth/sectors.py
@@ -177,8 +177,10 @@ def build_earth_sectors(model, *, surface_offset, prem_layers=None,
             _make_sphere_sector(name, outer_radius, material,
                                 _prem_density(dtype, params)))
     # any extras keyed to a missing layer name -> append at outer edge of PREM
-    for ex in extras_by_before.get(None, ()):
-        ordered_new.append(_extra_sector(ex))
+    layer_names = {layer[0] for layer in prem_layers}
+    for ex in extra_sectors:
+        if ex.insert_before not in layer_names:
+            ordered_new.append(_extra_sector(ex))
 
     if atmosphere is not None:
         for band in atmosphere.resolve(r_prem):
-- 
2.43.0


From c9c3bf7de7a98eed80ec7927092a5c8f41cc3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:55 +0000
Subject: [PATCH 162/182] fix: let a constant-density Earth be built on a
 coarser set of boundaries

---
 python/earth/prem.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/python/earth/prem.py b/python/earth/prem.py
index e4e6679..f6529f5 100644
--- a/python/earth/prem.py
+++ b/python/earth/prem.py
@@ -112,14 +112,29 @@ def collapse_to_constant(layers: Sequence[Tuple] = None,
     """
     if layers is None:
         layers = CANONICAL_PREM_LAYERS
+    radii = [float(layer[1]) for layer in layers]
+    if boundaries is None:
+        boundaries = radii
+    boundaries = [float(b) for b in boundaries]
+    for b in boundaries:
+        if b not in radii:
+            raise ValueError("No layer ends at the boundary {!r}".format(b))
     out: List[Tuple] = []
-    r_lo = 0.0
+    r_lo = 0.0      # inner radius of the layer
+    r_shell = 0.0   # inner radius of the output shell
+    mass = 0.0      # of the shell so far (over 4 pi)
     for name, r_hi, material, dtype, params in layers:
         r_hi = float(r_hi)
         if dtype == "constant":
             rho = float(params)
         else:
             rho = _mean_density(list(params), r_lo, r_hi)
-        out.append((name, r_hi, material, "constant", rho))
+        mass += rho * (r_hi ** 3 - r_lo ** 3) / 3.0
+        if r_hi in boundaries:
+            if r_shell != r_lo:
+                rho = mass / ((r_hi ** 3 - r_shell ** 3) / 3.0)
+            out.append((name, r_hi, material, "constant", rho))
+            r_shell = r_hi
+            mass = 0.0
         r_lo = r_hi
     return out
-- 
2.43.0


From a6335a6c6c5117e194e5a22f4999675fe0ce360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 163/182] fix: refuse half of an energy range for the HE_SN
 flux

---
 resources/fluxes/HE_SN/HE_SN-v1.0/flux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resources/fluxes/HE_SN/HE_SN-v1.0/flux.py b/resources/fluxes/HE_SN/HE_SN-v1.0/flux.py
index 02cd373..c0fd041 100644
--- a/resources/fluxes/HE_SN/HE_SN-v1.0/flux.py
+++ b/resources/fluxes/HE_SN/HE_SN-v1.0/flux.py
@@ -32,6 +32,8 @@ def load_flux(tag=None, min_energy=None, max_energy=None, physically_normalized=
     if tag!="numu":
         raise ValueError("Tag %s not supported for HE SN" % tag)
 
+    if (min_energy is None) != (max_energy is None):
+        raise RuntimeError("Neither or both \"min_energy\" and \"max_energy\" must be provided")
     has_energy_range = min_energy is not None
 
     input_flux_file = resolve_data_path(_INSTALL_DIR, _get_abs_dir(),
-- 
2.43.0


From 2f1f071ee99f59193559d3b338b835774bedbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 164/182] fix: load the CSMS interactions of the requested
 primaries only

---
 .../processes/CSMSDISSplines/CSMSDISSplines-v1.0/processes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resources/processes/CSMSDISSplines/CSMSDISSplines-v1.0/processes.py b/resources/processes/CSMSDISSplines/CSMSDISSplines-v1.0/processes.py
index 8e6bbab..0ef756b 100644
--- a/resources/processes/CSMSDISSplines/CSMSDISSplines-v1.0/processes.py
+++ b/resources/processes/CSMSDISSplines/CSMSDISSplines-v1.0/processes.py
@@ -119,7 +119,9 @@ def load_processes(
 
     _, download_dir = _get_dirs()
     for process_type in process_types:
-        for primaries, nunubar in [[neutrinos, "nu"], [antineutrinos, "nubar"]]:
+        for primaries, nunubar in [[neutrino_types, "nu"], [antineutrino_types, "nubar"]]:
+            if len(primaries) == 0:
+                continue
             if isoscalar:
                 dxs_file = resolve_data_path(base_path, download_dir, f"dsdxdy_{nunubar}_{process_type}_iso.fits")
                 xs_file = resolve_data_path(base_path, download_dir, f"sigma_{nunubar}_{process_type}_iso.fits")
-- 
2.43.0


From 3fc6edbdca7c3e94d3acafb6fd2b42b469957991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 165/182] fix: calculate DarkNews cross sections below the
 table boundary instead of returning zero

---
 python/SIREN_DarkNews.py                                   | 4 ++--
 resources/processes/DarkNewsTables/DarkNewsCrossSection.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/SIREN_DarkNews.py b/python/SIREN_DarkNews.py
index 692a7a5..05bfc64 100644
--- a/python/SIREN_DarkNews.py
+++ b/python/SIREN_DarkNews.py
@@ -348,7 +348,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
     def _query_interpolation_table(self, inputs, mode):
         #
         # returns:
-        # 0 if we are not close enough to any points in the interpolation table
+        # -1 if we are not close enough to any points in the interpolation table
         # otherwise, returns the desired interpolated value
 
         # First make sure we are configured
@@ -378,7 +378,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
                 elif mode== "differential": interpolator = self.differential_cross_section_interpolator
             elif inputs[0] < interp_table[0,0]:
                 print("Requested interpolation at %2.2f GeV below table boundary. Requring calculation"%inputs[0])
-                return 0
+                return -1
             val = max(0,interpolator(inputs))
             if hasattr(val, "item"): val = val.item()
             if val<0:
diff --git a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
index 81e20e6..4c42540 100644
--- a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
+++ b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
@@ -182,7 +182,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
     def _query_interpolation_table(self, inputs, mode):
         #
         # returns:
-        # 0 if we are not close enough to any points in the interpolation table
+        # -1 if we are not close enough to any points in the interpolation table
         # otherwise, returns the desired interpolated value
 
         # First make sure we are configured
@@ -222,7 +222,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
                     "Requested interpolation at %2.2f GeV below table boundary. Requring calculation"
                     % inputs[0]
                 )
-                return 0
+                return -1
             val = max(0, interpolator(inputs))
             if hasattr(val, "item"):
                 val = val.item()
-- 
2.43.0


From 4a2d53087757efdacd815d993b72a115cb5dd634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 166/182] fix: calculate DarkNews cross sections outside of the
 tabulated points instead of returning zero

---
 python/SIREN_DarkNews.py                            | 12 +++++++++---
 .../DarkNewsTables/DarkNewsCrossSection.py          | 13 ++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/python/SIREN_DarkNews.py b/python/SIREN_DarkNews.py
index 05bfc64..7f4fb66 100644
--- a/python/SIREN_DarkNews.py
+++ b/python/SIREN_DarkNews.py
@@ -379,8 +379,13 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
             elif inputs[0] < interp_table[0,0]:
                 print("Requested interpolation at %2.2f GeV below table boundary. Requring calculation"%inputs[0])
                 return -1
-            val = max(0,interpolator(inputs))
+            # too few points for an interpolator: require calculation
+            if interpolator is None: return -1
+            val = interpolator(inputs)
             if hasattr(val, "item"): val = val.item()
+            # outside of the points in the table: require calculation
+            if np.isnan(val): return -1
+            val = max(0,val)
             if val<0:
                 print("WARNING: negative interpolated value for %s-%s %s cross section at,"%(self.ups_case.nuclear_target.name,
                                                                                              self.ups_case.scattering_regime,
@@ -396,9 +401,10 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
                 print("Trying to use a single table point, but no closest idx found. Exiting...")
                 exit(0)
             return interp_table[closest_idx, -1]
-        elif Interpolate:
+        elif Interpolate and interpolator is not None:
             val = interpolator(inputs)
-            return val.item() if hasattr(val, "item") else val
+            if hasattr(val, "item"): val = val.item()
+            return -1 if np.isnan(val) else val
         else:
             return -1
 
diff --git a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
index 4c42540..287019d 100644
--- a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
+++ b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
@@ -223,9 +223,16 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
                     % inputs[0]
                 )
                 return -1
-            val = max(0, interpolator(inputs))
+            # too few points for an interpolator: require calculation
+            if interpolator is None:
+                return -1
+            val = interpolator(inputs)
             if hasattr(val, "item"):
                 val = val.item()
+            # outside of the points in the table: require calculation
+            if np.isnan(val):
+                return -1
+            val = max(0, val)
             if val < 0:
                 print(
                     "WARNING: negative interpolated value for %s-%s %s cross section at,"
@@ -249,11 +256,11 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
                 )
                 exit(0)
             return interp_table[closest_idx, -1]
-        elif Interpolate:
+        elif Interpolate and interpolator is not None:
             val = interpolator(inputs)
             if hasattr(val, "item"):
                 val = val.item()
-            return val
+            return -1 if np.isnan(val) else val
         else:
             return -1
 
-- 
2.43.0


From 4b090ea2fb8f86703c63b487ed1cf730dbac3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 167/182] fix: rebuild both DarkNews interpolators and accept
 repeated table entries

A total table with at most one entry kept the differential interpolator
from being built, and a repeated energy made PchipInterpolator raise.
---
 python/SIREN_DarkNews.py                      | 36 ++++++++--------
 .../DarkNewsTables/DarkNewsCrossSection.py    | 43 +++++++++----------
 2 files changed, 40 insertions(+), 39 deletions(-)

diff --git a/python/SIREN_DarkNews.py b/python/SIREN_DarkNews.py
index 7f4fb66..26ad9f8 100644
--- a/python/SIREN_DarkNews.py
+++ b/python/SIREN_DarkNews.py
@@ -276,32 +276,34 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
 
     # Sorts and redefines scipy interpolation objects
     def _redefine_interpolation_objects(self, total=False, diff=False):
-        if total:
-            if len(self.total_cross_section_table) <= 1: return
-            idxs = np.argsort(
-                self.total_cross_section_table[:,0]
+        if total and len(self.total_cross_section_table) > 1:
+            # sorted by energy, keeping one entry for each energy
+            _, idxs = np.unique(
+                self.total_cross_section_table[:, 0], return_index=True
             )
             self.total_cross_section_table = self.total_cross_section_table[idxs]
-            self.total_cross_section_interpolator = PchipInterpolator(
-                self.total_cross_section_table[:, 0],
-                self.total_cross_section_table[:, 1]
+            if len(self.total_cross_section_table) > 1:
+                self.total_cross_section_interpolator = PchipInterpolator(
+                    self.total_cross_section_table[:, 0],
+                    self.total_cross_section_table[:, 1],
+                )
+        if diff and len(self.differential_cross_section_table) > 1:
+            # sorted by energy then z, keeping one entry for each pair
+            _, idxs = np.unique(
+                self.differential_cross_section_table[:, :2],
+                axis=0,
+                return_index=True,
             )
-        if diff:
-            if len(self.differential_cross_section_table) <= 1: return
-            idxs = np.lexsort(
-                (self.differential_cross_section_table[:,1],
-                 self.differential_cross_section_table[:,0])
+            self.differential_cross_section_table = (
+                self.differential_cross_section_table[idxs]
             )
-            self.differential_cross_section_table = self.differential_cross_section_table[idxs]
             # If we only have two energy points, don't try to construct interpolator
-            if len(np.unique(self.differential_cross_section_table[:, 0])) <= 2: return
-            self.differential_cross_section_interpolator = (
-                LinearNDInterpolator(
+            if len(np.unique(self.differential_cross_section_table[:, 0])) > 2:
+                self.differential_cross_section_interpolator = LinearNDInterpolator(
                     self.differential_cross_section_table[:, :2],
                     self.differential_cross_section_table[:, 2],
                     rescale=True,
                 )
-            )
 
     # Check whether we have close-enough entries in the intrepolation tables
     def _interpolation_flags(self, inputs, mode):
diff --git a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
index 287019d..8b03042 100644
--- a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
+++ b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
@@ -107,35 +107,34 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
 
     # Sorts and redefines scipy interpolation objects
     def _redefine_interpolation_objects(self, total=False, diff=False):
-        if total:
-            if len(self.total_cross_section_table) <= 1:
-                return
-            idxs = np.argsort(self.total_cross_section_table[:, 0])
-            self.total_cross_section_table = self.total_cross_section_table[idxs]
-            self.total_cross_section_interpolator = PchipInterpolator(
-                self.total_cross_section_table[:, 0],
-                self.total_cross_section_table[:, 1],
+        if total and len(self.total_cross_section_table) > 1:
+            # sorted by energy, keeping one entry for each energy
+            _, idxs = np.unique(
+                self.total_cross_section_table[:, 0], return_index=True
             )
-        if diff:
-            if len(self.differential_cross_section_table) <= 1:
-                return
-            idxs = np.lexsort(
-                (
-                    self.differential_cross_section_table[:, 1],
-                    self.differential_cross_section_table[:, 0],
+            self.total_cross_section_table = self.total_cross_section_table[idxs]
+            if len(self.total_cross_section_table) > 1:
+                self.total_cross_section_interpolator = PchipInterpolator(
+                    self.total_cross_section_table[:, 0],
+                    self.total_cross_section_table[:, 1],
                 )
+        if diff and len(self.differential_cross_section_table) > 1:
+            # sorted by energy then z, keeping one entry for each pair
+            _, idxs = np.unique(
+                self.differential_cross_section_table[:, :2],
+                axis=0,
+                return_index=True,
             )
             self.differential_cross_section_table = (
                 self.differential_cross_section_table[idxs]
             )
             # If we only have two energy points, don't try to construct interpolator
-            if len(np.unique(self.differential_cross_section_table[:, 0])) <= 2:
-                return
-            self.differential_cross_section_interpolator = LinearNDInterpolator(
-                self.differential_cross_section_table[:, :2],
-                self.differential_cross_section_table[:, 2],
-                rescale=True,
-            )
+            if len(np.unique(self.differential_cross_section_table[:, 0])) > 2:
+                self.differential_cross_section_interpolator = LinearNDInterpolator(
+                    self.differential_cross_section_table[:, :2],
+                    self.differential_cross_section_table[:, 2],
+                    rescale=True,
+                )
 
     # Check whether we have close-enough entries in the intrepolation tables
     def _interpolation_flags(self, inputs, mode):
-- 
2.43.0


From c0a5ab91c600cf106d7faa874032143df7dd294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 168/182] fix: configure a DarkNews cross section that has no
 table directory

---
 python/SIREN_DarkNews.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/SIREN_DarkNews.py b/python/SIREN_DarkNews.py
index 26ad9f8..808c2dd 100644
--- a/python/SIREN_DarkNews.py
+++ b/python/SIREN_DarkNews.py
@@ -212,6 +212,8 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
             print(
                 "No table_dir specified; disabling interpolation\nWARNING: this will siginficantly slow down event generation"
             )
+            self.always_interpolate = False
+            self.configure()
             return
 
         # Make the table directory where will we store cross section tables
-- 
2.43.0


From ae907739bff4bd2913e17524633968dcb0920f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 169/182] fix: replace the DarkNews tables as a whole when
 saving them

---
 python/SIREN_DarkNews.py                      | 29 ++++++++++++++-----
 .../DarkNewsTables/DarkNewsCrossSection.py    | 27 +++++++++++++----
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/python/SIREN_DarkNews.py b/python/SIREN_DarkNews.py
index 808c2dd..425e8f6 100644
--- a/python/SIREN_DarkNews.py
+++ b/python/SIREN_DarkNews.py
@@ -475,20 +475,33 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
         self._redefine_interpolation_objects(total=total, diff=diff)
         return num_added_points
 
+    # Replaces a table file as a whole, so that an interrupted save cannot leave a partial table
+    @staticmethod
+    def _save_table(path, table):
+        tmp_path = path + ".tmp.%d" % os.getpid()
+        try:
+            with open(tmp_path, "wb") as f:
+                np.save(f, table)
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
+
     # Saves the tables for the scipy interpolation objects
     def SaveInterpolationTables(self, total=True, diff=True):
         if total:
             self._redefine_interpolation_objects(total=True)
-            with open(
-                os.path.join(self.table_dir, "total_cross_sections.npy"), "wb"
-            ) as f:
-                np.save(f, self.total_cross_section_table)
+            self._save_table(
+                os.path.join(self.table_dir, "total_cross_sections.npy"),
+                self.total_cross_section_table,
+            )
         if diff:
             self._redefine_interpolation_objects(diff=True)
-            with open(
-                os.path.join(self.table_dir, "differential_cross_sections.npy"), "wb"
-            ) as f:
-                np.save(f, self.differential_cross_section_table)
+            self._save_table(
+                os.path.join(self.table_dir, "differential_cross_sections.npy"),
+                self.differential_cross_section_table,
+            )
 
     def GetPossiblePrimaries(self):
         return [Particle.ParticleType(self.ups_case.nu_projectile.pdgid)]
diff --git a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
index 8b03042..863bc47 100644
--- a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
+++ b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
@@ -60,17 +60,32 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
 
         self.configure()
 
+    # Replaces a table file as a whole, so that an interrupted save cannot leave a partial table
+    @staticmethod
+    def _save_table(path, table):
+        tmp_path = path + ".tmp.%d" % os.getpid()
+        try:
+            with open(tmp_path, "wb") as f:
+                np.save(f, table)
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
+
     def save_to_table(self, table_dir, total=True, diff=True):
         if total:
             self._redefine_interpolation_objects(total=True)
-            with open(os.path.join(table_dir, "total_cross_sections.npy"), "wb") as f:
-                np.save(f, self.total_cross_section_table)
+            self._save_table(
+                os.path.join(table_dir, "total_cross_sections.npy"),
+                self.total_cross_section_table,
+            )
         if diff:
             self._redefine_interpolation_objects(diff=True)
-            with open(
-                os.path.join(table_dir, "differential_cross_sections.npy"), "wb"
-            ) as f:
-                np.save(f, self.differential_cross_section_table)
+            self._save_table(
+                os.path.join(table_dir, "differential_cross_sections.npy"),
+                self.differential_cross_section_table,
+            )
 
     # serialization method
     def get_representation(self):
-- 
2.43.0


From 0fed049ec3822893086c0b589106b30dedef4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 170/182] fix: do not pass a generator to np.sum in the
 DarkNews differential cross section

---
 python/SIREN_DarkNews.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/SIREN_DarkNews.py b/python/SIREN_DarkNews.py
index 425e8f6..5d5b102 100644
--- a/python/SIREN_DarkNews.py
+++ b/python/SIREN_DarkNews.py
@@ -571,11 +571,13 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
             p1p3 = interaction.primary_momentum[0] * interaction.secondary_momenta[0][
                 0
             ] - np.sum(
-                p1 * p3
-                for p1, p3 in zip(
-                    interaction.primary_momentum[1:],
-                    interaction.secondary_momenta[0][1:],
-                )
+                [
+                    p1 * p3
+                    for p1, p3 in zip(
+                        interaction.primary_momentum[1:],
+                        interaction.secondary_momenta[0][1:],
+                    )
+                ]
             )
             Q2 = -(m1sq + m3sq - 2 * p1p3)
             energy = interaction.primary_momentum[0]
-- 
2.43.0


From 36427b5dde9d2f8613e6027ed1f83062db845b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:18 +0000
Subject: [PATCH 171/182] fix: DarkNews signatures from parents use the target
 nucleus like the others do

---
 python/SIREN_DarkNews.py                                   | 5 ++---
 resources/processes/DarkNewsTables/DarkNewsCrossSection.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/SIREN_DarkNews.py b/python/SIREN_DarkNews.py
index 5d5b102..8954aa5 100644
--- a/python/SIREN_DarkNews.py
+++ b/python/SIREN_DarkNews.py
@@ -537,6 +537,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
         return [signature]
 
     def GetPossibleSignaturesFromParents(self, primary_type, target_type):
+        self._ensure_configured()
         if (
             Particle.ParticleType(self.ups_case.nu_projectile.pdgid) == primary_type
         ) and (
@@ -551,9 +552,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
             secondary_types.append(
                 Particle.ParticleType(self.ups_case.nu_upscattered.pdgid)
             )
-            secondary_types.append(
-                Particle.ParticleType(self.ups_case.nuclear_target.pdgid)
-            )
+            secondary_types.append(self.target_type)
             signature.secondary_types = secondary_types
             return [signature]
         return []
diff --git a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
index 863bc47..245b844 100644
--- a/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
+++ b/resources/processes/DarkNewsTables/DarkNewsCrossSection.py
@@ -384,6 +384,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
         return [signature]
 
     def GetPossibleSignaturesFromParents(self, primary_type, target_type):
+        self._ensure_configured()
         if (
             Particle.ParticleType(self.ups_case.nu_projectile.pdgid) == primary_type
         ) and ((self.target_type == target_type)):
@@ -396,9 +397,7 @@ class PyDarkNewsCrossSection(DarkNewsCrossSection):
             secondary_types.append(
                 Particle.ParticleType(self.ups_case.nu_upscattered.pdgid)
             )
-            secondary_types.append(
-                Particle.ParticleType(self.ups_case.nuclear_target.pdgid)
-            )
+            secondary_types.append(self.target_type)
             signature.secondary_types = secondary_types
             return [signature]
         return []
-- 
2.43.0


From c24d136cd1b3005dced38ba544c1afcb09740a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:49 +0000
Subject: [PATCH 172/182] fix: spline cross sections in different units are not
 equal

---
 projects/interactions/private/DISFromSpline.cxx          | 2 ++
 projects/interactions/private/HNLDISFromSpline.cxx       | 2 ++
 projects/interactions/private/HNLDipoleDISFromSpline.cxx | 2 ++
 projects/interactions/private/QuarkDISFromSpline.cxx     | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/projects/interactions/private/DISFromSpline.cxx b/projects/interactions/private/DISFromSpline.cxx
index bc43222..fcc035b 100644
--- a/projects/interactions/private/DISFromSpline.cxx
+++ b/projects/interactions/private/DISFromSpline.cxx
@@ -122,6 +122,7 @@ bool DISFromSpline::equal(CrossSection const & other) const {
             interaction_type_,
             target_mass_,
             minimum_Q2_,
+            unit,
             signatures_,
             primary_types_,
             target_types_,
@@ -132,6 +133,7 @@ bool DISFromSpline::equal(CrossSection const & other) const {
             x->interaction_type_,
             x->target_mass_,
             x->minimum_Q2_,
+            x->unit,
             x->signatures_,
             x->primary_types_,
             x->target_types_,
diff --git a/projects/interactions/private/HNLDISFromSpline.cxx b/projects/interactions/private/HNLDISFromSpline.cxx
index 97f96df..3ac5de5 100644
--- a/projects/interactions/private/HNLDISFromSpline.cxx
+++ b/projects/interactions/private/HNLDISFromSpline.cxx
@@ -131,6 +131,7 @@ bool HNLDISFromSpline::equal(CrossSection const & other) const {
             mixing_,
             target_mass_,
             minimum_Q2_,
+            unit,
             signatures_,
             primary_types_,
             target_types_,
@@ -142,6 +143,7 @@ bool HNLDISFromSpline::equal(CrossSection const & other) const {
             x->mixing_,
             x->target_mass_,
             x->minimum_Q2_,
+            x->unit,
             x->signatures_,
             x->primary_types_,
             x->target_types_,
diff --git a/projects/interactions/private/HNLDipoleDISFromSpline.cxx b/projects/interactions/private/HNLDipoleDISFromSpline.cxx
index cde0e36..2ec9f78 100644
--- a/projects/interactions/private/HNLDipoleDISFromSpline.cxx
+++ b/projects/interactions/private/HNLDipoleDISFromSpline.cxx
@@ -133,6 +133,7 @@ bool HNLDipoleDISFromSpline::equal(CrossSection const & other) const {
             hnl_mass_,
             dipole_coupling_,
             minimum_Q2_,
+            unit,
             signatures_,
             primary_types_,
             target_types_,
@@ -144,6 +145,7 @@ bool HNLDipoleDISFromSpline::equal(CrossSection const & other) const {
             x->hnl_mass_,
             x->dipole_coupling_,
             x->minimum_Q2_,
+            x->unit,
             x->signatures_,
             x->primary_types_,
             x->target_types_,
diff --git a/projects/interactions/private/QuarkDISFromSpline.cxx b/projects/interactions/private/QuarkDISFromSpline.cxx
index 9d9ec20..9d6df9f 100644
--- a/projects/interactions/private/QuarkDISFromSpline.cxx
+++ b/projects/interactions/private/QuarkDISFromSpline.cxx
@@ -161,6 +161,7 @@ bool QuarkDISFromSpline::equal(CrossSection const & other) const {
             interaction_type_,
             target_mass_,
             minimum_Q2_,
+            unit,
             signatures_,
             primary_types_,
             target_types_,
@@ -171,6 +172,7 @@ bool QuarkDISFromSpline::equal(CrossSection const & other) const {
             x->interaction_type_,
             x->target_mass_,
             x->minimum_Q2_,
+            x->unit,
             x->signatures_,
             x->primary_types_,
             x->target_types_,
-- 
2.43.0


From a0557e3752c466de6bf18191bbf44ffc1a7277ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:19 +0000
Subject: [PATCH 173/182] fix: integrate the charm fragmentation function over
 the right interval

pdf_vector carries an extra leading entry for z = 0, so pdf_vector[i - 1] was the
density two nodes back and the cumulative was up to 1% away from the Peterson function.
---
 projects/interactions/private/QuarkDISFromSpline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/interactions/private/QuarkDISFromSpline.cxx b/projects/interactions/private/QuarkDISFromSpline.cxx
index 9d6df9f..19de298 100644
--- a/projects/interactions/private/QuarkDISFromSpline.cxx
+++ b/projects/interactions/private/QuarkDISFromSpline.cxx
@@ -393,7 +393,7 @@ void QuarkDISFromSpline::compute_cdf() {
         }
         double cur_z = zspline[i];
         double cur_pdf = sample_pdf(cur_z);
-        double area = 0.5 * (pdf_vector[i - 1] + cur_pdf) * (zspline[i] - zspline[i - 1]);
+        double area = 0.5 * (pdf_vector.back() + cur_pdf) * (zspline[i] - zspline[i - 1]);
         pdf_vector.push_back(cur_pdf);
         cdf_z_nodes.push_back(cur_z);
         cdf_vector.push_back(area + cdf_vector.back());
-- 
2.43.0


From 39610ad61e92037c919a6c594e99cefe5ca94c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:00 +0000
Subject: [PATCH 174/182] fix: read DarkNews decay tables the way they are
 saved

save_to_table pickles a dictionary; load_from_table unpacked it as a pair
and so took its two keys for the norm and the integrator.
---
 resources/processes/DarkNewsTables/DarkNewsDecay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resources/processes/DarkNewsTables/DarkNewsDecay.py b/resources/processes/DarkNewsTables/DarkNewsDecay.py
index 0d842bb..025ec28 100644
--- a/resources/processes/DarkNewsTables/DarkNewsDecay.py
+++ b/resources/processes/DarkNewsTables/DarkNewsDecay.py
@@ -192,7 +192,9 @@ class PyDarkNewsDecay(DarkNewsDecay):
         decay_file = os.path.join(table_dir, "decay.pkl")
         if os.path.isfile(decay_file):
             with open(decay_file, "rb") as f:
-                self.decay_norm, self.decay_integrator = pickle.load(f)
+                table = pickle.load(f)
+                self.decay_norm = table["decay_norm"]
+                self.decay_integrator = table["decay_integrator"]
 
     def save_to_table(self, table_dir):
         with open(os.path.join(table_dir, "decay.pkl"),'wb') as f:
-- 
2.43.0


From cfbe1933fb0fe4cffbda4bf722e76f6a340300df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:00 +0000
Subject: [PATCH 175/182] fix: one column per DarkNews phase space point

get_decay_momenta_from_vegas_samples indexes its samples by dimension first;
a three-body decay raised IndexError.
---
 resources/processes/DarkNewsTables/DarkNewsDecay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/processes/DarkNewsTables/DarkNewsDecay.py b/resources/processes/DarkNewsTables/DarkNewsDecay.py
index 025ec28..835e0c5 100644
--- a/resources/processes/DarkNewsTables/DarkNewsDecay.py
+++ b/resources/processes/DarkNewsTables/DarkNewsDecay.py
@@ -428,7 +428,7 @@ class PyDarkNewsDecay(DarkNewsDecay):
         # Find the four-momenta associated with this point
         # Expand dims required to call DarkNews function on signle sample
         four_momenta = get_decay_momenta_from_vegas_samples(
-            np.expand_dims(PS, 0),
+            np.expand_dims(PS, 1),
             _FakeMCInterface(random),
             self.dec_case,
             np.expand_dims(np.array(record.primary_momentum), 0),
-- 
2.43.0


From 603c5783b9f1896aa870313718dc97145e7fafda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:00 +0000
Subject: [PATCH 176/182] fix: DarkNews decays list their density variables

The C++ interface takes a list of names, which a str is not converted to.
---
 resources/processes/DarkNewsTables/DarkNewsDecay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resources/processes/DarkNewsTables/DarkNewsDecay.py b/resources/processes/DarkNewsTables/DarkNewsDecay.py
index 835e0c5..c20bf0e 100644
--- a/resources/processes/DarkNewsTables/DarkNewsDecay.py
+++ b/resources/processes/DarkNewsTables/DarkNewsDecay.py
@@ -359,7 +359,7 @@ class PyDarkNewsDecay(DarkNewsDecay):
 
     def DensityVariables(self):
         if isinstance(self.dec_case, FermionSinglePhotonDecay):
-            return "cost"
+            return ["cost"]
         elif isinstance(self.dec_case, FermionDileptonDecay):
             if self.dec_case.vector_on_shell and self.dec_case.scalar_on_shell:
                 print("Can't have both the scalar and vector on shell")
@@ -367,13 +367,13 @@ class PyDarkNewsDecay(DarkNewsDecay):
             elif (self.dec_case.vector_on_shell and self.dec_case.scalar_off_shell) or (
                 self.dec_case.vector_off_shell and self.dec_case.scalar_on_shell
             ):
-                return "cost"
+                return ["cost"]
             elif self.dec_case.vector_off_shell and self.dec_case.scalar_off_shell:
-                return "t,u,c3,phi34"
+                return ["t", "u", "c3", "phi34"]
         else:
             print("%s is not a valid decay class type!" % type(self.dec_case))
             exit(0)
-        return ""
+        return []
 
     def GetPSSample(self, random):
         # Make the PS weight CDF if that hasn't been done
-- 
2.43.0


From 6d01cc90e328459c96aedfaf96fd15fd00e0445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:00 +0000
Subject: [PATCH 177/182] fix: the daughter of a DarkNews single photon decay
 keeps its mass

---
 resources/processes/DarkNewsTables/DarkNewsDecay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/processes/DarkNewsTables/DarkNewsDecay.py b/resources/processes/DarkNewsTables/DarkNewsDecay.py
index c20bf0e..a4556f6 100644
--- a/resources/processes/DarkNewsTables/DarkNewsDecay.py
+++ b/resources/processes/DarkNewsTables/DarkNewsDecay.py
@@ -449,7 +449,7 @@ class PyDarkNewsDecay(DarkNewsDecay):
             secondaries[gamma_idx].four_momentum = np.squeeze(four_momenta["P_decay_photon"])
             secondaries[gamma_idx].mass = 0
             secondaries[nu_idx].four_momentum = np.squeeze(four_momenta["P_decay_N_daughter"])
-            secondaries[nu_idx].mass = 0
+            secondaries[nu_idx].mass = self.dec_case.m_daughter
 
         elif isinstance(self.dec_case, FermionDileptonDecay):
             lepminus_idx = -1
-- 
2.43.0


From 930978c2423d0df0790bb16d1d1be1fe90fae062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:00 +0000
Subject: [PATCH 178/182] fix: load DarkNews decays from the folder they were
 saved in

The decay's own folder was appended twice for tables and not at all for
pickles. Both loaders now take it directly, like those of the cross sections.
---
 resources/processes/DarkNewsTables/processes.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/resources/processes/DarkNewsTables/processes.py b/resources/processes/DarkNewsTables/processes.py
index 4f17824..6a8e7d2 100644
--- a/resources/processes/DarkNewsTables/processes.py
+++ b/resources/processes/DarkNewsTables/processes.py
@@ -275,14 +275,11 @@ def load_decay_from_table(
     decay_key,
     table_dir,
 ):
-    subdir = "_".join(["Decay"] + [str(x) for x in decay_key])
-    table_subdir = os.path.join(table_dir, subdir)
-
     decay = load_decay(
         model_container,
         decay_key,
     )
-    decay.load_from_table(table_subdir)
+    decay.load_from_table(table_dir)
     return decay
 
 
@@ -291,8 +288,6 @@ def load_decay_from_pickle(
     table_dir,
 ):
     import pickle
-    subdir = "_".join(["Decay"] + [str(x) for x in decay_key])
-    table_subdir = os.path.join(table_dir, subdir)
     fname = os.path.join(table_dir, "dec_object.pkl")
     with open(fname, "rb") as f:
         dec_obj = pickle.load(f)
@@ -332,7 +327,7 @@ def attempt_to_load_decay(
                 try:
                     decay = load_decay_from_pickle(
                         decay_key,
-                        table_dir,
+                        table_subdir,
                     )
                     loaded = True
                 except Exception as e:
-- 
2.43.0


From e541e8c7eb5965fbbcdcaa1ca061a66da379f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:00 +0000
Subject: [PATCH 179/182] fix: fill the tables of the DarkNews cross sections
 at start

The loop ran over the keys.
---
 resources/processes/DarkNewsTables/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/processes/DarkNewsTables/processes.py b/resources/processes/DarkNewsTables/processes.py
index 6a8e7d2..eed87f7 100644
--- a/resources/processes/DarkNewsTables/processes.py
+++ b/resources/processes/DarkNewsTables/processes.py
@@ -463,7 +463,7 @@ def load_processes(
                 "WARNING: Cannot fill cross section tables without specifying a maximum energy"
             )
         else:
-            for cross_section in cross_sections:
+            for cross_section in cross_sections.values():
                 cross_section.FillInterpolationTables(Emax=Emax)
 
     primary_processes = collections.defaultdict(list)
-- 
2.43.0


From e35ab0a3e6c7a267f7252eca6c6678e0363129cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:00 +0000
Subject: [PATCH 180/182] fix: load DarkNews processes without a table name

---
 resources/processes/DarkNewsTables/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/processes/DarkNewsTables/processes.py b/resources/processes/DarkNewsTables/processes.py
index eed87f7..849cccf 100644
--- a/resources/processes/DarkNewsTables/processes.py
+++ b/resources/processes/DarkNewsTables/processes.py
@@ -436,7 +436,7 @@ def load_processes(
     if target_types: model_kwargs["nuclear_targets"]+=list(target_types)
 
     base_path = os.path.dirname(os.path.abspath(__file__))
-    table_dir = os.path.join(base_path, table_name)
+    table_dir = None if table_name is None else os.path.join(base_path, table_name)
 
     models = ModelContainer(
         **model_kwargs
-- 
2.43.0


From 95320eed33942ce56aebcaa9ad28775f5be6fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:35 +0000
Subject: [PATCH 181/182] fix: let several processes compose the SBN geometry
 at the same time

They shared the name of the temporary file: one could replace the composite
by a file that another had just truncated, which then failed in os.replace.
---
 resources/detectors/SBN/SBN-v1/sbn_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/detectors/SBN/SBN-v1/sbn_loader.py b/resources/detectors/SBN/SBN-v1/sbn_loader.py
index 0fe259a..6d83abe 100644
--- a/resources/detectors/SBN/SBN-v1/sbn_loader.py
+++ b/resources/detectors/SBN/SBN-v1/sbn_loader.py
@@ -9,6 +9,7 @@ automatically via GDMLData::MergeFrom.
 from __future__ import annotations
 
 import os
+import uuid
 from typing import Any
 
 import numpy as np
@@ -389,7 +390,7 @@ def ensure_miniboone_gdml(abs_dir: str,
     path = os.path.join(abs_dir, filename)
     if not os.path.isfile(path):
         os.makedirs(os.path.dirname(path), exist_ok=True)
-        tmp = path + ".tmp"
+        tmp = f"{path}.{uuid.uuid4().hex}.tmp"
         try:
             with open(tmp, "w", encoding="utf-8") as f:
                 f.write(_MINIBOONE_GDML)
@@ -518,7 +519,7 @@ def build_composite(
 </gdml>
 """
 
-    tmp_path = cache_path + ".tmp"
+    tmp_path = f"{cache_path}.{uuid.uuid4().hex}.tmp"
     try:
         with open(tmp_path, "w", encoding="utf-8") as f:
             f.write(stub)
-- 
2.43.0


From 7d94749face9a8618caebaea5085504072c9ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:35 +0000
Subject: [PATCH 182/182] fix: keep the SBN composites with and without the
 LBNF beamline apart

Both were written to the same file, so a process could load the one that
another process had asked for.
---
 resources/detectors/SBN/SBN-v1/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/detectors/SBN/SBN-v1/detector.py b/resources/detectors/SBN/SBN-v1/detector.py
index c4f4169..03d3814 100644
--- a/resources/detectors/SBN/SBN-v1/detector.py
+++ b/resources/detectors/SBN/SBN-v1/detector.py
@@ -247,7 +247,7 @@ def load_detector(detector=None, earth_model=False, lbnf=False):
             "sha256": spec.get("sha256", ""),
         })
 
-    cache_name = f"composite_{detector.lower()}.gdml"
+    cache_name = f"composite_{detector.lower()}{'_lbnf' if lbnf else ''}.gdml"
     cache_path = sbn_loader.build_composite(_ABS_DIR, sources, cache_name)
 
     model = DetectorModel()
-- 
2.43.0

