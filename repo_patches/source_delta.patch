From 3648b576e9c8f0f96a6523c01a8d33fcfdc51be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 01/43] fix: get_pierce_points/get_ray_paths pass the loaded
 model to TauP_Pierce/TauP_Path

---
 taupy/TauP_Path.py   | 16 +++++-----------
 taupy/TauP_Pierce.py | 14 ++++----------
 taupy/tau.py         | 10 ++++------
 3 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..dbe8e4c 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,19 +15,13 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
-        phaseList = phaseList if phaseList is not None else []
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        # This type conversion is important (somehow).
+        TauP_Pierce.__init__(self, taupy_model, phaseList, float(depth),
+                             degrees, coordinate_list)
         self.maxPathTime = 1e300
         self.maxPathInc = 1
-        self.phaseList = phaseList
-        self.modelName = modelName
-        # This type conversion is important (somehow).
-        self.depth = float(depth)
-        self.degrees = degrees
 
     def calculate(self, degrees):
         """
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..a5714e5 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,21 +14,15 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees,
+                           coordinate_list)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
-        self.phaseList = phaseList
-        self.modelName = modelName
-        self.depth = depth
-        self.degrees = degrees
 
     def depthCorrect(self, depth):
         """
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..1731b59 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From 48b9d649573ae19521ba0f8c6db24f6c1b2b085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 02/43] fix: Arrival.getPierce/getPath compute and return the
 points

---
 taupy/Arrival.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..38407ae 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,7 +53,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.phase.calcPierceFromArrival(self)
         return self.pierce
 
     def getPath(self):
@@ -61,7 +61,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.phase.calcPathFromArrival(self)
         return self.path
 
     def getModuloDistDeg(self):
-- 
2.43.0


From 8e163e653e21aa2021f30ee28171c07b3bc451b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 03/43] fix: splitting a branch no longer alters noDisconDepths
 of every TauModel

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..a5e62bd 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -325,7 +325,7 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
-- 
2.43.0


From 5889a0694e3077b1d4e81f74e79085e15e0cecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 04/43] fix: moving a slowness sample to the source depth no
 longer modifies the original model

---
 taupy/SlownessModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..12a436a 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1299,7 +1299,7 @@ class SlownessModel(object):
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
@@ -1313,7 +1313,7 @@ class SlownessModel(object):
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
-- 
2.43.0


From c5db13438dceef7cc4936b5992f2e771a68ced12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 05/43] fix: findBranch returns the deepest branch for the
 centre of the Earth

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index a5e62bd..6ba7a48 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -340,7 +340,7 @@ class TauModel(object):
                 return i
         # Check to see if depth is centre of the Earth.
         if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
-            return len(self.tauBranches) - 1
+            return len(self.tauBranches[0]) - 1
         else:
             raise TauModelError("No TauBranch contains this depth.")
 
-- 
2.43.0


From 608769ae906013f5676b0a386aac3b0f9b12ed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 06/43] fix: Pn and Sn travel along the Moho at the head wave
 slowness

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be6d4d3..c59cac4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -681,7 +681,8 @@ class SeismicPhase(object):
                                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
-            self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxRefraction * math.pi / 180 * self.minRayParam
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
-- 
2.43.0


From 45dfbdaaec014d2ef42a1ef7d36aff1a568aed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 07/43] fix: honour the radius of the velocity model in
 slowness and tau models

---
 taupy/SlownessModel.py | 24 ++++++++++++++++--------
 taupy/TauModel.py      |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 12a436a..4d2a22d 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -184,8 +184,10 @@ class SlownessModel(object):
             currVLayer.topSVelocity, currVLayer.topSVelocity,
             currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp,
             currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
-        currSLayer = create_from_vlayer(currVLayer, self.SWAVE)
-        currPLayer = create_from_vlayer(currVLayer, self.PWAVE)
+        currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                        self.radiusOfEarth)
+        currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                        self.radiusOfEarth)
         # We know that the top is always a critical slowness so add 0
         self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
         # Check to see if starting in fluid zone.
@@ -222,7 +224,8 @@ class SlownessModel(object):
                 self.fluidLayerDepths.append(fluidZone)
 
             currPLayer = create_from_vlayer(currVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             # If we are in a fluid zone ( S velocity = 0.0 ) or if we are below
             # the outer core and allowInnerCoreS=false then use the P velocity
             # structure to look for critical points.
@@ -231,7 +234,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(currVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
 
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
@@ -592,7 +596,8 @@ class SlownessModel(object):
                     prevVLayer.botDepth, prevVLayer.botPVelocity,
                     origVLayer.topPVelocity, topSVel, botSVel)
                 currPLayer = create_from_vlayer(currVLayer,
-                                                self.PWAVE)
+                                                self.PWAVE,
+                                                self.radiusOfEarth)
                 self.PLayers.append(currPLayer)
                 if (prevVLayer.botSVelocity == 0
                     and origVLayer.topSVelocity == 0) \
@@ -601,10 +606,12 @@ class SlownessModel(object):
                     currSLayer = currPLayer
                 else:
                     currSLayer = create_from_vlayer(currVLayer,
-                                                    self.SWAVE)
+                                                    self.SWAVE,
+                                                    self.radiusOfEarth)
                 self.SLayers.append(currSLayer)
             currPLayer = create_from_vlayer(origVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             self.PLayers.append(currPLayer)
             if self.depthInFluid(origVLayer.topDepth) or (
                     self.allowInnerCoreS is False
@@ -612,7 +619,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(origVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
             self.SLayers.append(currSLayer)
         # Make sure that all high slowness layers are sampled exactly
         # at their bottom
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 6ba7a48..303676a 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -33,7 +33,7 @@ class TauModel(object):
 
     def __init__(self, sMod, spherical=True, debug=False):
         self.debug = debug
-        self.radiusOfEarth = 6371.0
+        self.radiusOfEarth = sMod.radiusOfEarth
         # True if this is a spherical slowness model. False if flat.
         self.spherical = spherical
         # Ray parameters used to construct the tau branches. This may only be
-- 
2.43.0


From c2df34324bf7a885c8b01dbae3e48552bc445102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 08/43] fix: great_circle_dist no longer fails for identical or
 antipodal points

---
 taupy/TauP_Time.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..8405df4 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -345,9 +345,12 @@ def great_circle_dist(stn, event):
     lonA = stn[1]
     latB = event[0]
     lonB = event[1]
-    return rtod * math.acos(math.sin(latA * dtor) * math.sin(latB * dtor)
-                            + math.cos(latA * dtor) * math.cos(latB * dtor)
-                            * math.cos((lonB - lonA) * dtor))
+    cosDist = (math.sin(latA * dtor) * math.sin(latB * dtor)
+               + math.cos(latA * dtor) * math.cos(latB * dtor)
+               * math.cos((lonB - lonA) * dtor))
+    # Rounding can take this just outside of the domain of acos for identical
+    # or antipodal points.
+    return rtod * math.acos(max(-1.0, min(1.0, cosDist)))
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From b918ce2faf8589d0fd6cc0198d57a273903b1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 09/43] fix: the order of simultaneous arrivals no longer
 depends on the hash seed

---
 taupy/TauP_Time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 8405df4..9fd5ca8 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -235,8 +235,10 @@ def parsePhaseList(phaseList):
     phaseNames = []
     for phaseName in phaseList:
         phaseNames += getPhaseNames(phaseName)
-    # Remove duplicates:
-    phaseNames = list(set(phaseNames))
+    # Remove duplicates, but keep the order so that it does not depend on the
+    # hash seed:
+    phaseNames = [name for i, name in enumerate(phaseNames)
+                  if name not in phaseNames[:i]]
     return phaseNames
 
 
-- 
2.43.0


From 11cea7f5f75f0e8b09092b6dc0e160c41057c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 10/43] fix: TauP_Create can write a model to the current
 directory

---
 taupy/TauP_Create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..217ff21 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,9 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            output_dir = os.path.dirname(self.output_filename)
+            if output_dir and not os.path.exists(output_dir):
+                os.makedirs(output_dir)
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
-- 
2.43.0


From 7c973fc0634694398ae46764f8b27788494bdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 11/43] fix: create_taup_model creates the model instead of
 raising AttributeError

---
 taupy/tau.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/taupy/tau.py b/taupy/tau.py
index 1731b59..035d86e 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -129,9 +129,15 @@ def create_taup_model(model_name, output_dir, input_dir):
     Create a .taup model from a .tvel file.
     :param model_name:
     :param output_dir:
+    :param input_dir:
     """
     if "." in model_name:
         model_file_name = model_name
     else:
         model_file_name = model_name + ".tvel"
-    TauP_Create.main(model_file_name, output_dir, input_dir)
+    output_filename = os.path.join(
+        output_dir, os.path.splitext(model_file_name)[0] + ".taup")
+    mod_create = TauP_Create(os.path.join(input_dir, model_file_name),
+                             output_filename)
+    mod_create.loadVMod()
+    mod_create.run()
-- 
2.43.0


From a8c58e7cf8f8fd5ec5b03a35c6bbf982efb4c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 12/43] fix: rays leaving a source on a discontinuity downwards
 are limited by the slowness below it

---
 taupy/SeismicPhase.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index c59cac4..5ed77eb 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -495,6 +495,13 @@ class SeismicPhase(object):
                 raise TauModelError(
                     "Phase not recognized: {} followed by {}".format(currLeg,
                                                                      nextLeg))
+        # If the source is on a discontinuity then rays that leave downwards
+        # are limited by the slowness below it, not by the one above.
+        if self.branchSeq and self.downGoing[0]:
+            self.maxRayParam = min(
+                self.maxRayParam,
+                tMod.getTauBranch(self.branchSeq[0],
+                                  self.waveType[0]).maxRayParam)
 
     def phaseConversion(self, tMod, fromBranch, endAction, isPtoS):
         """
-- 
2.43.0


From b2e24eff80624d879809105cd230ce9b0b455ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 13/43] fix: a source within a millimetre of a branch boundary
 no longer fails

---
 taupy/TauModel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 303676a..38df3a9 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -201,6 +201,12 @@ class TauModel(object):
         if depth > self.radiusOfEarth:
             raise TauModelError("Can't depth correct to a source deeper than "
                                 "the radius of the Earth.")
+        # A source that is very close to a branch boundary is put on it, just
+        # as slowness samples very close to the source depth are moved.
+        for tb in self.tauBranches[0]:
+            for boundary in (tb.topDepth, tb.botDepth):
+                if abs(boundary - depth) < 0.000001:
+                    depth = boundary
         depthCorrected = self.loadFromDepthCache(depth)
         if depthCorrected is None:
             depthCorrected = self.splitBranch(depth)
-- 
2.43.0


From 807fe4f7978502d735565502952a3059c687c99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 14/43] fix: splitting several layers of the other wave type
 replaces the right ones

---
 taupy/SlownessModel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 4d2a22d..b871b72 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1383,7 +1383,9 @@ class SlownessModel(object):
             # but must not break program flow. I.e. that's ok, no error
             # should be raised, the try clause can be seen like an if.
             pass
-        for otherLayerNum, sLayer in enumerate(out[:]):
+        otherLayerNum = -1
+        for sLayer in out[:]:
+            otherLayerNum += 1
             if (sLayer.topP - p) * (p - sLayer.botP) > 0:
                 # Found a slowness layer with the other wave type that
                 # contains the new slowness sample.
@@ -1399,6 +1401,7 @@ class SlownessModel(object):
                 self.fixCriticalDepths(criticalDepths, otherLayerNum,
                                        not isPWave)
                 # Skip next layer as it was just added: achieved by slicing
-                # the list iterator.
+                # the list iterator, but it still has to be counted.
+                otherLayerNum += 1
 
         return out
-- 
2.43.0


From 8b5f462b0470d05b5c30ca20c1849e8045b224e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 15/43] fix: the slowness at the source depth is sampled when a
 branch is split

The search for the place of the new ray parameter assumed increasing ray
parameters and never found one, so that the direct arrivals of a source
inside a branch extended beyond the horizontal ray.
---
 taupy/TauBranch.py | 108 +++++++++------------------------------------
 taupy/TauModel.py  |  24 +++++-----
 2 files changed, 33 insertions(+), 99 deletions(-)

diff --git a/taupy/TauBranch.py b/taupy/TauBranch.py
index 16cc6ae..b0f1bc5 100644
--- a/taupy/TauBranch.py
+++ b/taupy/TauBranch.py
@@ -109,16 +109,7 @@ class TauBranch(object):
                 or botSLayer.botDepth != self.botDepth:
             raise TauModelError(
                 "TauBranch depths not compatible with slowness sampling.")
-        td = TimeDist(rayParam, 0, 0)
-        if topSLayer.botP >= rayParam and topSLayer.topP >= rayParam:
-            for i in range(botLayerNum + 1):
-                if sMod.getSlownessLayer(i, self.isPWave).botP < rayParam:
-                    # So we don't sum below the turning depth.
-                    break
-                else:
-                    temptd = sMod.layerTimeDist(rayParam, i, self.isPWave)
-                    td.distRadian += temptd.distRadian
-                    td.time += temptd.time
+        td = self.calcTimeDist(sMod, topLayerNum, botLayerNum, rayParam)
         self.shiftBranch(index)
         self.dist[index] = td.distRadian
         self.time[index] = td.time
@@ -194,85 +185,26 @@ class TauBranch(object):
         botBranch.maxRayParam = topBranch.minRayParam
         botBranch.minTurnRayParam = self.minTurnRayParam
         botBranch.minRayParam = self.minRayParam
-        PRayParam = -1
-        SRayParam = -1
-        arrayLength = len(self.dist)
-        if indexP != -1:
-            arrayLength += 1
-            PRayParam = rayParams[indexP]
-            timeDistP = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum,
-                                               PRayParam)
-        if indexS != -1 and indexS != indexP:
-            arrayLength += 1
-            SRayParam = rayParams[indexS]
-            timeDistS = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum,
-                                               SRayParam)
-        else:
-            # In case indexS==P then only need one.
-            indexS = -1
-        # This looks silly, but makes filling these later on easier
-        botBranch.dist = [0 for i in range(arrayLength)]
-        botBranch.time = [0 for i in range(arrayLength)]
-        botBranch.tau = [0 for i in range(arrayLength)]
-        if indexP == -1:
-            # Then both indices are -1 so no new ray parameters are added.
-            botBranch.dist = [a-b for a, b in zip(self.dist, topBranch.dist)]
-            botBranch.time = [a-b for a, b in zip(self.time, topBranch.time)]
-            botBranch.tau = [a-b for a, b in zip(self.tau, topBranch.tau)]
-        else:
-            if indexS == -1:
-                # Only indexP != -1.
-                # Slice to have the 'iteration' go only until indexP (zip
-                # ends with the shortest iterator).
-                botBranch.dist = [a-b for a, b in zip(self.dist[:indexP],
-                                                      topBranch.dist)]
-                botBranch.time = [a-b for a, b in zip(self.time[:indexP],
-                                                      topBranch.time)]
-                botBranch.tau = [a-b for a, b in zip(self.tau[:indexP],
-                                                     topBranch.tau)]
-                botBranch.dist.append(timeDistP.distRadian)
-                botBranch.time.append(timeDistP.time)
-                botBranch.tau.append(
-                    timeDistP.time - PRayParam * timeDistP.distRadian)
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
-                botBranch.dist[indexP:] = [a-b for a, b in zip(
-                    self.dist[indexP:], topBranch.dist[indexP+1:])]
+        botBranch.dist = []
+        botBranch.time = []
+        botBranch.tau = []
+        # The new ray parameters are not yet sampled by this branch, so that
+        # its index lags behind.
+        oldIndex = 0
+        for i, p in enumerate(rayParams):
+            if i in (indexP, indexS):
+                td = botBranch.calcTimeDist(sMod, topLayerNum, botLayerNum, p)
+                botBranch.dist.append(td.distRadian)
+                botBranch.time.append(td.time)
+                botBranch.tau.append(td.time - p * td.distRadian)
             else:
-                # Both indexP and S are != -1 so have two new samples
-                # Note the following does the same (in the beginning) as the
-                # previous clause.
-                # I'm on the fence about which is better.
-                for i in range(indexS):
-                    botBranch.dist[i] = self.dist[i] - topBranch.dist[i]
-                    botBranch.time[i] = self.time[i] - topBranch.time[i]
-                    botBranch.tau[i] = self.tau[i] - topBranch.tau[i]
-                botBranch.dist[indexS] = timeDistS.distRadian
-                botBranch.time[indexS] = timeDistS.time
-                botBranch.tau[indexS] = \
-                    timeDistS.time - SRayParam * timeDistS.distRadian
-                for i in range(indexS, indexP):
-                    botBranch.dist[i + 1] = \
-                        self.dist[i] - topBranch.dist[i + 1]
-                    botBranch.time[i + 1] = \
-                        self.time[i] - topBranch.time[i + 1]
-                    botBranch.tau[i + 1] = \
-                        self.tau[i] - topBranch.tau[i + 1]
-                # Put in at indexP+1 because we have already shifted by 1
-                # due to indexS.
-                botBranch.dist[indexP + 1] = timeDistP.distRadian
-                botBranch.time[indexP + 1] = timeDistP.time
-                botBranch.tau[indexP + 1] = \
-                    timeDistP.time - PRayParam * timeDistP.distRadian
-                for i in range(indexP, len(self.dist)):
-                    botBranch.dist[i + 2] = \
-                        self.dist[i] - topBranch.dist[i + 2]
-                    botBranch.time[i + 2] = \
-                        self.time[i] - topBranch.time[i + 2]
-                    botBranch.tau[i + 2] = \
-                        self.tau[i] - topBranch.tau[i + 2]
+                botBranch.dist.append(
+                    self.dist[oldIndex] - topBranch.dist[i])
+                botBranch.time.append(
+                    self.time[oldIndex] - topBranch.time[i])
+                botBranch.tau.append(
+                    self.tau[oldIndex] - topBranch.tau[i])
+                oldIndex += 1
         return botBranch
 
     def path(self, rayParam, downgoing, sMod):
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 38df3a9..00922b1 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -239,7 +239,6 @@ class TauModel(object):
         SWaveRayParam = -1
         outSMod = self.sMod
         outRayParams = deepcopy(self.rayParams)  # necessary?
-        oldRayParams = self.rayParams
         # Do S wave first since the S ray param is > P ray param.
         for isPWave in [False, True]:
             splitInfo = outSMod.splitLayer(depth, isPWave)
@@ -249,12 +248,14 @@ class TauModel(object):
                 # each.
                 newRayParam = splitInfo.rayParam
                 # Insert the new ray parameters into the rayParams array.
-                for index, trp, brp in zip(count(), oldRayParams[:-1],
-                                           oldRayParams[1:]):
-                    if trp < newRayParam < brp:
-                        outRayParams = oldRayParams[:index]
-                        outRayParams.append(newRayParam)
-                        outRayParams = outRayParams + oldRayParams[index:]
+                # In a high slowness zone it is not needed: rays with that
+                # ray parameter do not leave the zone.
+                if newRayParam > outSMod.getMinRayParam(depth, isPWave):
+                    continue
+                for index, trp, brp in zip(count(1), outRayParams[:-1],
+                                           outRayParams[1:]):
+                    if trp > newRayParam > brp:
+                        outRayParams.insert(index, newRayParam)
                         if isPWave:
                             indexP = index
                             PWaveRayParam = newRayParam
@@ -268,8 +269,8 @@ class TauModel(object):
         newTauBranches = [[TauBranch() for j in range(
             len(self.tauBranches[0]) + 1)] for i in range(2)]
         for i in range(branchToSplit):
-            newTauBranches[0][i] = self.tauBranches[0][i]
-            newTauBranches[1][i] = self.tauBranches[1][i]
+            newTauBranches[0][i] = deepcopy(self.tauBranches[0][i])
+            newTauBranches[1][i] = deepcopy(self.tauBranches[1][i])
             # Add the new ray parameter(s) from splitting the S and/or P
             # wave slowness layer to both the P and S wave tau branches (if
             # splitting occurred).
@@ -294,7 +295,8 @@ class TauModel(object):
                     outRayParams)
         for i in range(branchToSplit + 1, len(self.tauBranches[0])):
             for pOrS in range(2):
-                newTauBranches[pOrS][i + 1] = self.tauBranches[pOrS][i]
+                newTauBranches[pOrS][i + 1] = \
+                    deepcopy(self.tauBranches[pOrS][i])
             if indexS != -1:
                 # Add the new ray parameter from splitting the S wave
                 # slownes layer to both the P and S wave tau branches.
@@ -306,7 +308,7 @@ class TauModel(object):
                 # slownes layer to both the P and S wave tau branches.
                 for pOrS in range(2):
                     newTauBranches[pOrS][i + 1].insert(PWaveRayParam, outSMod,
-                                                       indexS)
+                                                       indexP)
         # We have split a branch so possibly sourceBranch, mohoBranch,
         # cmbBranch and iocbBranch are off by 1.
         outSourceBranch = self.sourceBranch
-- 
2.43.0


From 3f127f2980bf783fe1e79f94be82af8580f05141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 16/43] fix: rounding of the angle of a horizontal ray no
 longer raises a math domain error

---
 taupy/SeismicPhase.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 5ed77eb..f848986 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1053,13 +1053,14 @@ class SeismicPhase(object):
                 # Fake negative velocity so angle is negative in case of
                 # upgoing ray.
                 takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
-            takeoffAngle = (180 / math.pi) * math.asin(
-                takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth -
-                                                     self.sourceDepth))
+            # The sines may exceed 1 by rounding for horizontal rays.
+            takeoffAngle = (180 / math.pi) * math.asin(max(-1, min(
+                1, takeoffVelocity * arrivalRayParam /
+                (self.tMod.radiusOfEarth - self.sourceDepth))))
             lastLeg = self.legs[-2][0]  # very last item is "END"
-            incidentAngle = (180 / math.pi) * math.asin(
-                vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
-                self.tMod.radiusOfEarth)
+            incidentAngle = (180 / math.pi) * math.asin(min(
+                1, vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
+                self.tMod.radiusOfEarth))
         return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum,
                        name, puristName, sourceDepth, takeoffAngle,
                        incidentAngle)
-- 
2.43.0


From 097010da20af199d5eb0aacb839fd5c8087eab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 17/43] fix: phases with numbered or ^/v discontinuities, e.g.
 P410s or P^410P, are recognised

---
 taupy/SeismicPhase.py | 60 +++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index f848986..7009214 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -7,6 +7,7 @@ from future.builtins import *
 from taupy.Arrival import Arrival
 from taupy.helper_classes import TauModelError, TimeDist
 import math
+import re
 import numpy as np
 from copy import deepcopy
 from itertools import count
@@ -126,7 +127,7 @@ class SeismicPhase(object):
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
-                disconBranch = closestBranchToDepth(tMod, currLeg[1])
+                disconBranch = closestBranchToDepth(tMod, currLeg[1:])
                 legDepth = tMod.tauBranches[0][disconBranch].topDepth
                 puristName += currLeg[0]
                 puristName += str(legDepth)
@@ -251,7 +252,7 @@ class SeismicPhase(object):
                         "p and s must always be upgoing and cannot come "
                         "immediately before a top-sided reflection.")
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch >= disconBranch:
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -290,7 +291,7 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
@@ -301,7 +302,7 @@ class SeismicPhase(object):
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -314,9 +315,8 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
                     elif ((prevLeg.startswith("v") and
-                                   disconBranch < closestBranchToDepth(tMod,
-                                                                       prevLeg[
-                                                                           1])
+                                   disconBranch < closestBranchToDepth(
+                                       tMod, prevLeg[1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -488,8 +488,8 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
             elif (any(currLeg == p for p in ("m", "c", "i"))
-                  or currLeg.startswith == "^"
-                  or currLeg.startswith == "v" or isLegDepth):
+                  or currLeg.startswith("^")
+                  or currLeg.startswith("v") or isLegDepth):
                 pass
             else:
                 raise TauModelError(
@@ -1117,7 +1117,7 @@ def legPuller(name):
                                         "m", "c")):
                 legs.append(nchar)
                 offset += 1
-            elif nchar == "P" or "S":
+            elif nchar == "P" or nchar == "S":
                 # Now it gets complicated, first see if the next char is
                 # part of a different leg or if it's the end.
                 if (offset + 1 == len(name) or
@@ -1145,30 +1145,30 @@ def legPuller(name):
             elif nchar == "^" or nchar == "v":
                 # Top side or bottom side reflections, check for standard
                 # boundaries and then check for numerical ones.
-                if any(name[offset + 1] == c for c in ("m", "c", "i")):
+                if any(name[offset + 1:offset + 2] == c
+                       for c in ("m", "c", "i")):
                     legs.append(name[offset:offset + 2])
                     offset += 2
-                elif name[offset + 1].isdigit() or name[offset + 1] == ".":
-                    numString = name[offset]
-                    offset += 1
-                    while name[offset + 1].isdigit() or name[
-                                offset + 1] == ".":
-                        numString += name[offset]
-                        offset += 1
-                    legs.append(numString)
                 else:
-                    raise TauModelError("Invalid phase name {nchar} in {name}."
-                                        .format(**locals()))
-            elif nchar.isdigit() or nchar == ".":
-                numString = name[offset]
-                offset += 1
-                while name[offset + 1].isdigit() or name[offset + 1] == ".":
-                    numString += name[offset]
-                    offset += 1
-                legs.append(numString)
+                    numString = pullNumber(name, offset + 1)
+                    legs.append(nchar + numString)
+                    offset += 1 + len(numString)
             else:
-                raise TauModelError(
-                    "Invalid phase name {nchar} in {name}.".format(**locals()))
+                numString = pullNumber(name, offset)
+                legs.append(numString)
+                offset += len(numString)
     legs.append("END")
     # phaseValidate(legs)
     return legs
+
+
+def pullNumber(name, offset):
+    """
+    Returns the number, e.g. the depth of a discontinuity, that starts at the
+    given offset of a phase name.
+    """
+    match = re.match(r"[0-9]+\.?[0-9]*|\.[0-9]+", name[offset:])
+    if match is None:
+        raise TauModelError("Invalid phase name {} in {}.".format(
+            name[offset:offset + 1], name))
+    return match.group()
-- 
2.43.0


From a43c7f3d8814ba081bb189eadf900b99fa44461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 18/43] fix: phase names that end with a discontinuity are
 skipped like other invalid names

---
 taupy/SeismicPhase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 7009214..dc73449 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1159,6 +1159,12 @@ def legPuller(name):
                 offset += len(numString)
     legs.append("END")
     # phaseValidate(legs)
+    # A ray cannot end with a discontinuity, it has to get to the surface.
+    if any(legs[-2:-1] == [c] for c in ("m", "c", "i")) \
+            or legs[-2:-1] and legs[-2][0] in "^v.0123456789" \
+            and not name.endswith("kmps"):
+        raise TauModelError("Invalid phase name: \n {} must not end with {}."
+                            .format(name, legs[-2]))
     return legs
 
 
-- 
2.43.0


From e81a69c2f0ea93d21fa3f7212f8d35b24f89e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 19/43] fix: surface waves such as 2kmps have arrivals and
 pierce points instead of raising

---
 taupy/SeismicPhase.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index dc73449..1d3956d 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -153,6 +153,14 @@ class SeismicPhase(object):
         # Deal with surface wave velocities first, since they are a special
         # case.
         if len(self.legs) == 2 and currLeg.endswith("kmps"):
+            try:
+                velocity = float(currLeg[:-4])
+            except ValueError:
+                velocity = 0
+            if not 0 < velocity < float("inf"):
+                raise TauModelError("Invalid surface wave velocity: {}"
+                                    .format(self.name))
+            self.minRayParam = self.maxRayParam = tMod.radiusOfEarth / velocity
             return
         # Make a check for J legs if the model doesn't allow J:
         if "J" in self.name and not tMod.sMod.allowInnerCoreS:
@@ -616,7 +624,6 @@ class SeismicPhase(object):
             self.rayParams[1] = self.rayParams[0]
             self.minDistance = 0
             self.maxDistance = 2 * math.pi
-            self.downGoing.append(True)
             return
         # Find the ray parameter index that corresponds to the minRayParam
         # and maxRayParam.
-- 
2.43.0


From dfffe66d50db6711761bcdad2d70af1f5077ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 20/43] fix: an integer source depth is no longer taken for a
 layer number

---
 taupy/SeismicPhase.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 1d3956d..1a3b849 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -890,15 +890,13 @@ class SeismicPhase(object):
             else:
                 if (isPWave or self.tMod.sMod.depthInFluid((
                             tauBranch.topDepth + tauBranch.botDepth) / 2)):
-                    turnDepth = self.tMod.sMod.findDepth(distRayParam,
-                                                         tauBranch.topDepth,
-                                                         tauBranch.botDepth,
-                                                         True)
+                    turnDepth = self.tMod.sMod.findDepth_from_depths(
+                        distRayParam, tauBranch.topDepth, tauBranch.botDepth,
+                        True)
                 else:
-                    turnDepth = self.tMod.sMod.findDepth(distRayParam,
-                                                         tauBranch.topDepth,
-                                                         tauBranch.botDepth,
-                                                         isPWave)
+                    turnDepth = self.tMod.sMod.findDepth_from_depths(
+                        distRayParam, tauBranch.topDepth, tauBranch.botDepth,
+                        isPWave)
             if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
                 # Head waves and diffracted waves are a special case.
                 distA = tauBranch.dist[rayNum]
-- 
2.43.0


From 52cf0be74338690a12d71612c92e8243bc8e0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 21/43] fix: comment lines and empty lines in .tvel files are
 skipped

---
 taupy/VelocityModel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 4f205a4..1798bd5 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -333,10 +333,12 @@ class VelocityModel(object):
             f.readline()
             f.readline()
             # Read the first line to provide initial top values.
-            line = f.readline()
-            line = line.partition('#')[0]
-            line = line.rstrip()  # or just .strip()?'
-            columns = line.split()
+            # Lines that are empty or hold only a comment are skipped.
+            columns = []
+            for line in f:
+                columns = line.partition('#')[0].split()
+                if columns:
+                    break
             topDepth = float(columns[0])
             topPVel = float(columns[1])
             topSVel = float(columns[2])
@@ -355,6 +357,8 @@ class VelocityModel(object):
                 # needs the other comment options
                 line = line.rstrip()  # or just .strip()?'
                 columns = line.split()
+                if not columns:
+                    continue
                 botDepth = float(columns[0])
                 botPVel = float(columns[1])
                 botSVel = float(columns[2])
-- 
2.43.0


From 4445466d924d80f5a5f3dcbf8a9678cb8713aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 22/43] fix: a ray that converts on its way down is not limited
 by a total reflection of its old wave type

PKJKP and e.g. P410S lost the rays whose P wave cannot be transmitted although
the S wave can.
---
 taupy/SeismicPhase.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 1a3b849..72bf8d7 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -376,9 +376,10 @@ class SeismicPhase(object):
                         elif nextnextLeg == "P" or nextnextLeg == "S":
                             if disconBranch > self.currBranch:
                                 # discon is below current loc
-                                self.addToBranch(tMod, self.currBranch,
-                                                 disconBranch - 1, isPWave,
-                                                 self.TRANSDOWN)
+                                self.addToBranch(
+                                    tMod, self.currBranch, disconBranch - 1,
+                                    isPWave, self.TRANSDOWN,
+                                    converted=currLeg != nextnextLeg)
                             else:
                                 # Discontinuity is above current location,
                                 # but we have a downgoing ray, so this is an
@@ -476,7 +477,8 @@ class SeismicPhase(object):
                 elif nextLeg == "I" or nextLeg == "J":
                     self.addToBranch(tMod, self.currBranch,
                                      tMod.iocbBranch - 1, isPWave,
-                                     self.TRANSDOWN)
+                                     self.TRANSDOWN,
+                                     converted=isPWave != (nextLeg == "I"))
                 elif nextLeg == "i":
                     self.addToBranch(tMod, self.currBranch,
                                      tMod.iocbBranch - 1, isPWave,
@@ -540,17 +542,20 @@ class SeismicPhase(object):
         elif endAction == self.TRANSDOWN:
             self.maxRayParam = min(
                 self.maxRayParam,
-                tMod.getTauBranch(fromBranch, isPtoS).minRayParam,
+                tMod.getTauBranch(fromBranch, isPtoS).minTurnRayParam,
                 tMod.getTauBranch(fromBranch + 1, not isPtoS).maxRayParam)
         else:
             raise TauModelError("Illegal endAction = {}".format(endAction))
 
-    def addToBranch(self, tMod, startBranch, endBranch, isPWave, endAction):
+    def addToBranch(self, tMod, startBranch, endBranch, isPWave, endAction,
+                    converted=False):
         """
         Adds the branch numbers from startBranch to endBranch, inclusive,
         to branchSeq, in order. Also, currBranch is set correctly based on
         the value of endAction. endAction can be one of TRANSUP, TRANSDOWN,
-        REFLECTTOP, REFLECTBOT, or TURN.
+        REFLECTTOP, REFLECTBOT, or TURN. converted is True if the ray goes on
+        as the other wave type, only used for TRANSDOWN: a total reflection
+        of the original wave type does not matter then.
         """
         self.endAction = endAction
         if endAction == self.TURN:
@@ -582,6 +587,8 @@ class SeismicPhase(object):
             isDownGoing = True
             self.maxRayParam = min(
                 self.maxRayParam,
+                tMod.getTauBranch(endBranch, isPWave).minTurnRayParam
+                if converted else
                 tMod.getTauBranch(endBranch, isPWave).minRayParam)
         else:
             raise TauModelError("Illegal endAction: {}".format(endAction))
-- 
2.43.0


From cf2cd67ccaf1485654e7f44beb46d42a6eee8a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 23/43] fix: the shadow zone of phases with both P and S legs
 ends at the right distance

---
 taupy/SeismicPhase.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 72bf8d7..c679d5d 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -713,11 +713,12 @@ class SeismicPhase(object):
         # parameters that are associated with high slowness zones. If so,
         # then we will need to insert a "shadow zone" into our time and
         # distance arrays. It is represented by a repeated ray parameter.
+        # At the edge of the shadow zone only the legs of its wave type turn
+        # above the high slowness zone, the others are not affected.
         for isPwave in [True, False]:
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
-            indexOffset = 0
             for hszi in hsz:
                 if self.maxRayParam > hszi.rayParam > self.minRayParam:
                     # There is a high slowness zone within our ray parameter
@@ -739,6 +740,7 @@ class SeismicPhase(object):
                             break
                     if foundOverlap:
                         hszIndex = self.rayParams.index(hszi.rayParam)
+                        rayIndex = tMod.rayParams.index(hszi.rayParam)
                         newdist = deepcopy(self.dist[:hszIndex])
                         newtime = deepcopy(self.time[:hszIndex])
                         newrayParams = deepcopy(self.rayParams[:hszIndex])
@@ -750,24 +752,17 @@ class SeismicPhase(object):
                                                         timesBranches[1],
                                                         tMod.tauBranches[0],
                                                         tMod.tauBranches[1]):
-                            if tb != 0 and taub.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tb * taub.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tb * taub.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                            if tbs != 0 and taubs.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tbs * taubs.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tbs * taubs.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                            if tb != 0 and (not isPwave or
+                                            taub.topDepth < hszi.topDepth):
+                                newdist[hszIndex] += tb * taub.dist[rayIndex]
+                                newtime[hszIndex] += tb * taub.time[rayIndex]
+                            if tbs != 0 and (isPwave or
+                                             taubs.topDepth < hszi.topDepth):
+                                newdist[hszIndex] += tbs * taubs.dist[rayIndex]
+                                newtime[hszIndex] += tbs * taubs.time[rayIndex]
                         newdist += self.dist[hszIndex:]
                         newtime += self.time[hszIndex:]
                         newrayParams += self.rayParams[hszIndex:]
-                        indexOffset += 1
                         self.dist = newdist
                         self.time = newtime
                         self.rayParams = newrayParams
-- 
2.43.0


From fef2fdd848dad6c081ba1249e403ee8fa199333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 24/43] fix: no Pn or Sn along a Moho that is the top of a high
 slowness zone

---
 taupy/SeismicPhase.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index c679d5d..8aadf51 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -435,9 +435,14 @@ class SeismicPhase(object):
                         # thinking we are turning below the Moho, but then
                         # make the minRayParam equal to maxRayParam,
                         # which is the head wave ray.
-                        if (self.maxRayParam >= tMod.getTauBranch(
-                                tMod.mohoBranch, isPWave).maxRayParam
-                                >= self.minRayParam):
+                        # There is no head wave along the top of a high
+                        # slowness zone.
+                        headRayParam = tMod.getTauBranch(
+                            tMod.mohoBranch, isPWave).maxRayParam
+                        if (self.maxRayParam >= headRayParam
+                                >= self.minRayParam
+                                and not tMod.sMod.depthInHighSlowness(
+                                    tMod.mohoDepth, headRayParam, isPWave)):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
-- 
2.43.0


From 9e736bd0b67169dc5fd535215f5f9bfe7a252f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 25/43] fix: the high slowness zone that prevents pPdiff,
 sPdiff etc. is the one of the diffracted wave

---
 taupy/SeismicPhase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 8aadf51..2e2c659 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -691,7 +691,7 @@ class SeismicPhase(object):
         if "Sdiff" in self.name or "Pdiff" in self.name:
             if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10,
                                              self.minRayParam,
-                                             self.name[0] == "P"):
+                                             "Pdiff" in self.name):
                 # No diffraction if there is a high slowness zone at the CMB.
                 self.minRayParam = -1
                 self.maxRayParam = -1
-- 
2.43.0


From 2ab5f2ed26910cc7731f24699e3d78fa564f7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 26/43] fix: no p410P, s410S and the like from sources above
 the discontinuity

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 2e2c659..2b3d3fa 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -279,7 +279,8 @@ class SeismicPhase(object):
                         tMod, self.currBranch, disconBranch, isPWave,
                         (self.TRANSUP if currLeg == "k"
                                          and not nextLeg == "K" else self.REFLECTTOP))
-                elif isNextLegDepth:
+                elif isNextLegDepth and self.currBranch >= \
+                        closestBranchToDepth(tMod, nextLeg):
                     disconBranch = closestBranchToDepth(tMod, nextLeg)
                     self.addToBranch(tMod, self.currBranch, disconBranch,
                                      isPWave, self.TRANSUP)
-- 
2.43.0


From 0c5dded7e91c98cc4b68ef2fff87173b63c8d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 27/43] fix: sample the reflections from a discontinuity on top
 of a high slowness zone

---
 taupy/SlownessModel.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b871b72..fc88122 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -878,10 +878,16 @@ class SlownessModel(object):
             while j < self.getNumLayers(currWaveType):
                 prevSLayer = sLayer
                 sLayer = self.getSlownessLayer(j, currWaveType)
+                # Total reflections at the top of a high slowness zone do not
+                # enter it.
+                reflection = (sLayer.topDepth == sLayer.botDepth
+                              and sLayer.topP > sLayer.botP)
                 if (self.depthInHighSlowness(sLayer.botDepth, sLayer.botP,
-                                             currWaveType) is False
+                                             currWaveType,
+                                             reflection) is False
                     and self.depthInHighSlowness(sLayer.topDepth, sLayer.topP,
-                                                 currWaveType) is False):
+                                                 currWaveType,
+                                                 reflection) is False):
                     # Don't calculate prevTD if we can avoid it
                     if isCurrOK:
                         if isPrevOK:
@@ -986,7 +992,8 @@ class SlownessModel(object):
                 print("Number of " + ("P" if currWaveType else "S") +
                       " slowness layers: " + str(j))
 
-    def depthInHighSlowness(self, depth, rayParam, isPWave):
+    def depthInHighSlowness(self, depth, rayParam, isPWave,
+                            fromAbove=False):
         """
         Determines if the given depth and corresponding slowness is contained
         within a high slowness zone. Whether the high slowness zone includes
@@ -1000,12 +1007,16 @@ class SlownessModel(object):
         NOTE: I changed this method a bit by throwing out some seemingly
         useless copying of the values in tempRange, which I think are not
         used anywhere else.
+        :param fromAbove: The ray comes from above depth, so that zones that
+            start there don't count.
         """
         if isPWave:
             highSlownessLayerDepths = self.highSlownessLayerDepthsP
         else:
             highSlownessLayerDepths = self.highSlownessLayerDepthsS
         for tempRange in highSlownessLayerDepths:
+            if fromAbove and depth == tempRange.topDepth:
+                continue
             if tempRange.topDepth <= depth <= tempRange.botDepth:
                 if rayParam > tempRange.rayParam \
                         or (rayParam == tempRange.rayParam
-- 
2.43.0


From b0dfbfe1f7be6d41249f2d8f1a66a160bdadb0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:52 +0000
Subject: [PATCH 28/43] fix: distanceCheck recalculates the distance when it
 backs up further than it remembers

---
 taupy/SlownessModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index fc88122..6205f20 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -963,6 +963,8 @@ class SlownessModel(object):
                             self.addSlowness((sLayer.topP + sLayer.botP) / 2,
                                              self.SWAVE)
                             currTD = prevPrevTD
+                            # It must be calculated again if not known.
+                            isCurrOK = currTD is not None
                             isPrevOK = False
                             if j > 0:
                                 # Back up one step unless we are at the
-- 
2.43.0


From 70c012d9a5c29569f52a401a600b7de33959be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 29/43] fix: accept models with one high slowness zone right
 below another

---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 6205f20..34a0ef7 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1201,7 +1201,7 @@ class SlownessModel(object):
                 if highSZoneDepth.topDepth >= highSZoneDepth.botDepth:
                     raise SlownessModelError(
                         "High Slowness zone has zero or negative thickness!")
-                if highSZoneDepth.topDepth <= prevDepth:
+                if highSZoneDepth.topDepth < prevDepth:
                     raise SlownessModelError(
                         "High Slowness zone overlaps previous zone.")
                 prevDepth = highSZoneDepth.botDepth
-- 
2.43.0


From 68aa13eaa161d9295b469971b2e1e83ebdedb2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:49 +0000
Subject: [PATCH 30/43] fix: moving a slowness sample to the source depth moves
 it in the right wave type

---
 taupy/SlownessModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 34a0ef7..b6313b4 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1322,7 +1322,7 @@ class SlownessModel(object):
                                                     sLayer.botP, depth)
             out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         elif abs(depth - sLayer.botDepth) < 0.000001:
             # As above.
@@ -1336,7 +1336,7 @@ class SlownessModel(object):
                                                     sLayer.botDepth)
             out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         else:
             # Must split properly.
-- 
2.43.0


From 66fa9609f1e474fb58659c93d5e9e2c4de92b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:12 +0000
Subject: [PATCH 31/43] fix: the nearest discontinuity of a phase name is not
 one where the velocity is continuous

---
 taupy/TauModel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 00922b1..63d86fa 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -137,6 +137,11 @@ class TauModel(object):
                     self.sMod.layerNumberAbove(botCritDepth.depth, isPWave),
                     isPWave)
                 minPSoFar = min(minPSoFar, botSLayer.botP)
+        # Branches also start at extrema of slowness, where the velocity is
+        # continuous.
+        disconDepths = self.sMod.vMod.getDisconDepths()
+        self.noDisconDepths = [tb.topDepth for tb in self.tauBranches[0]
+                               if tb.topDepth not in disconDepths]
         # Here we decide which branches are the closest to the Moho, CMB,
         # and IOCB by comparing the depth of the top of the branch with the
         # depths in the Velocity Model.
-- 
2.43.0


From ef7c33cc66a82742e9df94294c068f40f67b2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:16 +0000
Subject: [PATCH 32/43] fix: pierce points and paths of head and diffracted
 waves run along the boundary where the phase does, e.g. SdiffS

---
 taupy/SeismicPhase.py | 86 +++++++++++++------------------------------
 1 file changed, 26 insertions(+), 60 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 2b3d3fa..8d73bb8 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -107,6 +107,9 @@ class SeismicPhase(object):
         self.downGoing = []
         # ArrayList of wave types corresponding to each leg of the phase.
         self.waveType = []
+        # Where head and diffracted waves travel along a boundary: maps the
+        # index in branchSeq after which they do to the boundary's depth.
+        self.alongBoundary = {}
         # List containing strings for each leg.
         self.legs = legPuller(name)
         # Name with depths corrected to be actual discontinuities in the model.
@@ -407,6 +410,8 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch,
                                          tMod.cmbBranch - 1, isPWave,
                                          self.TURN)
+                        self.alongBoundary[len(self.branchSeq) - 1] = \
+                            tMod.cmbDepth
                         self.maxRayParam = self.minRayParam
                         if nextLeg == "END" or nextLeg.startswith("P") \
                                 or nextLeg.startswith("S"):
@@ -447,6 +452,8 @@ class SeismicPhase(object):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
+                            self.alongBoundary[len(self.branchSeq) - 1] = \
+                                tMod.mohoDepth
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TRANSUP)
@@ -883,9 +890,9 @@ class SeismicPhase(object):
         # so the pierce point when the ray leaves branch i is stored in i + 1.
         # Use linear interpolation between rays that we know.
         assert len(self.branchSeq) == len(self.waveType) == len(self.downGoing)
-        for branchNum, isPWave, isDownGoing in zip(self.branchSeq,
-                                                   self.waveType,
-                                                   self.downGoing):
+        for i, branchNum, isPWave, isDownGoing in zip(count(), self.branchSeq,
+                                                      self.waveType,
+                                                      self.downGoing):
             # Save the turning depths for the ray parameter for both P and
             # S waves. This way we get the depth correct for any rays that
             # turn within a layer. We have to do this on a per branch basis
@@ -927,9 +934,14 @@ class SeismicPhase(object):
             if abs(prevBranchTime - branchTime) > 1e-10:
                 pierce.append(TimeDist(distRayParam, branchTime, branchDist,
                                        branchDepth))
-        if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
-            pierce = self.handleHeadOrDiffractedWave(currArrival, pierce)
-        elif "kmps" in self.name:
+            if i in self.alongBoundary:
+                # Head and diffracted waves leave the boundary further on.
+                branchDist += self.distAlongBoundary(currArrival)
+                branchTime += self.distAlongBoundary(currArrival) \
+                    * currArrival.rayParam
+                pierce.append(TimeDist(distRayParam, branchTime, branchDist,
+                                       self.alongBoundary[i]))
+        if "kmps" in self.name:
             pierce.append(TimeDist(distRayParam, currArrival.time,
                                    currArrival.dist, 0))
         currArrival.pierce = pierce
@@ -968,27 +980,11 @@ class SeismicPhase(object):
                         raise RuntimeError("Path is backtracking, "
                                            "this is impossible.")
             # Special case for head and diffracted waves:
-            if(branchNum == self.tMod.cmbBranch - 1
-               and i < len(self.branchSeq) - 1
-               and self.branchSeq[i + 1] == self.tMod.cmbBranch - 1
-               and ("Pdiff" in self.name or "Sdiff" in self.name)):
-                diffTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])
-                                   * currArrival.rayParam,
-                                   currArrival.dist - self.dist[0],
-                                   self.tMod.cmbDepth)]
-                pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch - 1
-                 and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch - 1
-                 and ("Pn" in self.name or "Sn" in self.name)):
-                # Can't have both Pn and Sn in a wave, so one of these is 0.
-                numFound = max(self.name.count("Pn"), self.name.count("Sn"))
+            if i in self.alongBoundary:
+                headDist = self.distAlongBoundary(currArrival)
                 headTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0]) / numFound
-                                   * currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])/numFound,
-                                   self.tMod.mohoDepth)]
+                                   headDist * currArrival.rayParam,
+                                   headDist, self.alongBoundary[i])]
                 pathList.append(headTD)
         if "kmps" in self.name:
             # kmps phases have no branches, so need to end them at the arrival
@@ -1007,42 +1003,12 @@ class SeismicPhase(object):
                 currArrival.path.append(deepcopy(cumulative))
         return currArrival
 
-    def handleHeadOrDiffractedWave(self, currArrival, orig):
+    def distAlongBoundary(self, currArrival):
         """
-        Here we worry about the special case for head and diffracted
-        waves. It is assumed that a phase can be a diffracted wave or a
-        head wave, but not both. Nor can it be a head wave or diffracted
-        wave for both P and S.
+        Distance in radians that a head or diffracted wave travels along its
+        boundary, each time if it does so several times.
         """
-        for ps in ["Pn", "Sn", "Pdiff", "Sdiff"]:
-            if ps in self.name:
-                phaseSeg = ps
-                break
-        else:
-            raise TauModelError("No head/diff segment in" + str(self.name))
-        if phaseSeg in ["Pn", "Sn"]:
-            headDepth = self.tMod.mohoDepth
-        else:
-            headDepth = self.tMod.cmbDepth
-        numFound = self.name.count(phaseSeg)
-        refractDist = currArrival.dist - self.dist[0]
-        refractTime = refractDist * currArrival.rayParam
-        out = []
-        j = 0
-        for td in orig:
-            # This is a little weird as we are not checking where we are in
-            # the phase name, but simply if the depth matches. This likely
-            # works in most cases, but may not for head/diffracted waves that
-            # undergo a phase change, if that type of phase can even exist.
-            out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                td.distRadian + j * refractDist / numFound,
-                                td.depth))
-            if td.depth == headDepth:
-                j += 1
-                out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                    td.distRadian + j * refractDist / numFound,
-                                    td.depth))
-        return out
+        return (currArrival.dist - self.dist[0]) / len(self.alongBoundary)
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-- 
2.43.0


From bb0f8f5b9333d451d118c5f7aed65e0ce4ff4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 33/43] fix: check the distance sampling of the layer on top of
 a high slowness zone

---
 taupy/SlownessModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b6313b4..e41edbe 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -878,13 +878,14 @@ class SlownessModel(object):
             while j < self.getNumLayers(currWaveType):
                 prevSLayer = sLayer
                 sLayer = self.getSlownessLayer(j, currWaveType)
-                # Total reflections at the top of a high slowness zone do not
-                # enter it.
+                # Total reflections at the top of a high slowness zone and
+                # rays that turn right above it do not enter it.
                 reflection = (sLayer.topDepth == sLayer.botDepth
                               and sLayer.topP > sLayer.botP)
+                fromAbove = reflection or sLayer.topDepth < sLayer.botDepth
                 if (self.depthInHighSlowness(sLayer.botDepth, sLayer.botP,
                                              currWaveType,
-                                             reflection) is False
+                                             fromAbove) is False
                     and self.depthInHighSlowness(sLayer.topDepth, sLayer.topP,
                                                  currWaveType,
                                                  reflection) is False):
-- 
2.43.0


From 2914c44c71ae42a8d90471b3191cce4350924d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:34 +0000
Subject: [PATCH 34/43] fix: a source depth of type np.float32 is calculated
 with in double precision

---
 taupy/TauModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 63d86fa..8c12e16 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -206,6 +206,8 @@ class TauModel(object):
         if depth > self.radiusOfEarth:
             raise TauModelError("Can't depth correct to a source deeper than "
                                 "the radius of the Earth.")
+        # Calculate in double precision also for a depth of type np.float32.
+        depth = float(depth)
         # A source that is very close to a branch boundary is put on it, just
         # as slowness samples very close to the source depth are moved.
         for tb in self.tauBranches[0]:
-- 
2.43.0


From a206a5c9bc66972ce19d5d4cd8d780f96408d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 35/43] fix: a source at the boundary of a P slowness layer has
 the ray parameter that turns there

The P slownesses of the lower mantle that no S wave turns at are not among
the ray parameters of the model, so that a source exactly at such a layer
boundary, e.g. at 1552 km in iasp91, missed the ray that leaves horizontally:
phases like PP^660P reached beyond the slowness at the source.
---
 taupy/SlownessModel.py |  6 ++++--
 taupy/TauModel.py      | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index e41edbe..3a3ae01 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1309,7 +1309,9 @@ class SlownessModel(object):
         if sLayer.topDepth == depth or sLayer.botDepth == depth:
             # Depth is already on a slowness layer boundary so no need to
             # split any slowness layers.
-            return SplitLayerInfo(self, False, False, 0)
+            return SplitLayerInfo(self, False, False,
+                                  sLayer.topP if sLayer.topDepth == depth
+                                  else sLayer.botP)
         elif abs(sLayer.topDepth - depth) < 0.000001:
             # Check for very thin layers, just move the layer to hit the
             # boundary.
@@ -1338,7 +1340,7 @@ class SlownessModel(object):
             out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = self.SLayers if isPWave else outLayers
-            return SplitLayerInfo(out, False, True, sLayer.botP)
+            return SplitLayerInfo(out, False, True, sLayer.topP)
         else:
             # Must split properly.
             p = sLayer.evaluateAtBullen(depth, self.radiusOfEarth)
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 8c12e16..3060d75 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -250,10 +250,21 @@ class TauModel(object):
         for isPWave in [False, True]:
             splitInfo = outSMod.splitLayer(depth, isPWave)
             outSMod = splitInfo.sMod
-            if splitInfo.neededSplit and not splitInfo.movedSample:
+            newRayParam = splitInfo.rayParam
+            # The P wave slowness layers are sampled at slownesses that are
+            # none of the ray parameters, as no S wave turns at them. A layer
+            # boundary at depth may be such a sample.
+            newSample = not splitInfo.neededSplit and isPWave and \
+                newRayParam not in outRayParams
+            if newSample:
+                outSMod = deepcopy(outSMod)
+                outSMod.SLayers = outSMod.fixOtherLayers(
+                    outSMod.SLayers, newRayParam, None, None, None,
+                    outSMod.criticalDepths, False)
+            if newSample or (splitInfo.neededSplit and
+                             not splitInfo.movedSample):
                 # Split the slowness layers containing depth into two layers
                 # each.
-                newRayParam = splitInfo.rayParam
                 # Insert the new ray parameters into the rayParams array.
                 # In a high slowness zone it is not needed: rays with that
                 # ray parameter do not leave the zone.
-- 
2.43.0


From ad9f37c4b37229396a7ab5e725bc868949505d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 36/43] fix: a velocity model whose depths do not increase is
 invalid

Some of them kept the distance sampling busy without end.
---
 taupy/VelocityModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 1798bd5..99abae9 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -214,9 +214,10 @@ class VelocityModel(object):
                 print("prevVelocityLayer=", prevVelocityLayer, file=sys.stderr)
                 print("currVelocityLayer=", currVelocityLayer, file=sys.stderr)
                 return False
-            if currVelocityLayer.botDepth == currVelocityLayer.topDepth:
+            if currVelocityLayer.botDepth <= currVelocityLayer.topDepth:
                 #   more redundant comments in the original java
-                print("There is a zero thickness layer in the velocity model "
+                print("There is a zero thickness layer, or one whose depths "
+                      "do not increase, in the velocity model "
                       "at layer " + str(layerNum), file=sys.stderr)
                 print("prevVelocityLayer=", prevVelocityLayer, file=sys.stderr)
                 print("currVelocityLayer=", currVelocityLayer, file=sys.stderr)
-- 
2.43.0


From 48d013ccdf559070afcc5287739d7c8b85f27ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 37/43] fix: the slowness structure without inner core S starts
 at the inner core boundary

---
 taupy/SlownessModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 3a3ae01..8fc98ac 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -217,7 +217,7 @@ class SlownessModel(object):
                 fluidZone = DepthRange(topDepth=currVLayer.topDepth)
             # If already in fluid zone, check if exited (java line 909)
             if inFluidZone is True and currVLayer.topSVelocity != 0:
-                if prevVLayer.botDepth > self.vMod.iocbDepth:
+                if prevVLayer.botDepth >= self.vMod.iocbDepth:
                     belowOuterCore = True
                 inFluidZone = False
                 fluidZone.botDepth = prevVLayer.botDepth
-- 
2.43.0


From 9c956abb18e34d165b7ab426cf7d9e72ea85fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 38/43] fix: rounding does not put a slowness sample outside of
 its layer

---
 taupy/SlownessModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 8fc98ac..cf48a27 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -784,6 +784,9 @@ class SlownessModel(object):
                         (sLayer.botDepth - sLayer.topDepth)
                     botDepth = self.interpolate(p, topVelocity,
                                                 sLayer.topDepth, slope)
+                    # Rounding must not put it outside of the layer.
+                    botDepth = min(max(botDepth, sLayer.topDepth),
+                                   sLayer.botDepth)
                 botLayer = SlownessLayer(p, botDepth, sLayer.botP,
                                          sLayer.botDepth)
                 topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p,
-- 
2.43.0


From 7fa40cfd38d0b655f6e20ef748c184b8421d1dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 39/43] fix: printing only turning, reversing or underside
 points compares with the point before

---
 taupy/TauP_Pierce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index a5714e5..50afc40 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -111,6 +111,7 @@ class TauP_Pierce(TauP_Time):
                           currArrival.pierce[j].depth,
                           currArrival.pierce[j].time))
                     # Optional (only if used in calc?) coords output to follow.
+                prevDepth = capd
 
     def getCommentLine(self, currArrival):
         outName = currArrival.name
-- 
2.43.0


From d5ef305fe0e41f19a2705b842b684595cc328df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 40/43] fix: a stored model is loaded from the path it is at,
 whatever its file name

---
 taupy/TauModelLoader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/TauModelLoader.py b/taupy/TauModelLoader.py
index d6dcffe..c854b25 100644
--- a/taupy/TauModelLoader.py
+++ b/taupy/TauModelLoader.py
@@ -17,7 +17,8 @@ def load(model_name):
     """
     #
     filename = _get_model_filename(model_name)
-    if not os.path.exists(filename):
+    # A path to a file is not the name of an internal model.
+    if os.path.dirname(model_name) or not os.path.exists(filename):
         filename = model_name
 
     with open(filename, 'rb') as f:
-- 
2.43.0


From 42cbfb49e3b594e7b7aba13504c3a3723e011fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 41/43] fix: report arrivals at distance 0 that go around the
 Earth only once

At distance 0 (or any full turn) the rays with 2(n+1)*PI-radDist are those
with 2(n+1)*PI+radDist, so that they were found twice.
---
 taupy/SeismicPhase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 8d73bb8..0082a21 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -800,7 +800,8 @@ class SeismicPhase(object):
         # we get the time for phases that accumulate more than 180 degrees
         # of distance, for instance PKKKKP might wrap all of the way around.
         # A special case exists at 180, so we skip the second case if
-        # tempDeg==180.
+        # tempDeg==180. Likewise at 0, where it is the first case of the
+        # next n.
         n = 0
         while n * 2 * math.pi + radDist <= self.maxDistance:
             # Look for arrivals that are radDist + 2nPi, i.e. rays that have
@@ -825,7 +826,7 @@ class SeismicPhase(object):
             # Look for arrivals that are 2(n+1)Pi-radDist, i.e. rays that
             # have done more than one half lap plus some number of whole laps.
             searchDist = (n + 1) * 2 * math.pi - radDist
-            if tempDeg != 180:
+            if tempDeg != 180 and tempDeg != 0:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
                             and rayNum + 1 != len(self.dist) - 1:
-- 
2.43.0


From 738fd74527f05423fb359bde432bed61826c2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 42/43] fix: drop the phases of the previous run when there are
 none left

The list of phases was only replaced if the new one had a name.
---
 taupy/TauP_Time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 9fd5ca8..e4dd5a8 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -116,7 +116,7 @@ class TauP_Time(object):
                 except TauModelError:
                     print("Error with this phase, skipping it: " +
                           str(tempPhaseName))
-            self.phases = newPhases
+        self.phases = newPhases
 
     def calculate(self, degrees):
         """Calls the actual calculations of the arrival times."""
-- 
2.43.0


From 43c78b4293603911b69b6cbaf12a11bb2308c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 43/43] fix: split the model anew when the added depths of a
 calculator change

Depths that were removed from addDepth stayed pierce points as long as the
source depth was the same, and a depth that the model could not be split at
left the calculator with a half-split model.
---
 taupy/TauP_Pierce.py | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 50afc40..3845c67 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -23,6 +23,8 @@ class TauP_Pierce(TauP_Time):
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
+        # The addDepths that tModDepth has been split at.
+        self.tModDepthAddDepths = []
 
     def depthCorrect(self, depth):
         """
@@ -31,36 +33,24 @@ class TauP_Pierce(TauP_Time):
         :return:
         """
         tModOrig = self.tMod
-        mustRecalc = False
+        addDepths = list(self.addDepth) if self.addDepth is not None else []
         # First check if tModDepth is correct as it is. Check to make sure
-        # source depth is the same, and then check to make sure each addDepth
-        # is in the model.
-        if self.tModDepth.sourceDepth == depth:
-            if self.addDepth:
-                branchDepths = self.tModDepth.getBranchDepths()
-                for addDepth in self.addDepth:
-                    for branchDepth in branchDepths:
-                        if addDepth == branchDepth:
-                            # Found it, so break and go to the next addDepth.
-                            break
-                        # Didn't find the depth as a branch, so must
-                        # recalculate.
-                        mustRecalc = True
-                    if mustRecalc:
-                        break
-        else:
-            # The depth isn't event the same, so must recalculate
-            mustRecalc = True
-        if not mustRecalc:
+        # source depth is the same, and then check to make sure that it has
+        # been split at each addDepth, and nowhere else.
+        if (self.tModDepth is not None
+                and self.tModDepth.sourceDepth == depth
+                and self.tModDepthAddDepths == addDepths):
             # Won't actually do anything much since tModDepth != None.
             TauP_Time.depthCorrect(self, depth)
         else:
             self.tModDepth = None
-            if self.addDepth is not None:
-                for addDepth in self.addDepth:
+            try:
+                for addDepth in addDepths:
                     self.tMod = self.tMod.splitBranch(addDepth)
-            TauP_Time.depthCorrect(self, depth)
-            self.tMod = tModOrig
+                TauP_Time.depthCorrect(self, depth)
+            finally:
+                self.tMod = tModOrig
+            self.tModDepthAddDepths = addDepths
 
     def calculate(self, degrees):
         """
-- 
2.43.0

