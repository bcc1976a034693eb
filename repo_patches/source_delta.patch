From fb75c0e80f3062db7e870c2ba0d69df4c23afd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 01/54] fix: RKPulseEngineGetVacantPulse() no longer waits
 forever on a slot vacated by the reader

---
 source/RKPulseEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 10f820e..cd0d5ae 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1376,7 +1376,7 @@ RKPulse *RKPulseEngineGetVacantPulse(RKPulseEngine *engine, const RKPulseStatus
     RKPulse *pulse = RKGetPulseFromBuffer(engine->pulseBuffer, k);
     if (pulse->header.s != RKPulseStatusVacant && waitMask) {
         k = 0;
-        while (!(pulse->header.s & waitMask)) {
+        while (!(pulse->header.s & waitMask) && pulse->header.s != RKPulseStatusVacant) {
             usleep(100);
             if (k > 10000 && k++ % 10000 == 0) {
                 RKLog("%s Wait 1   %.1fs\n", engine->name, k * 0.0001f);
-- 
2.43.0


From cc871561f1262e4478f96299b2247e8af29d991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 02/54] fix: ring filter workers whose range lies beyond the
 gate count no longer overwrite those gates

---
 source/RKPulseRingFilter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 062ff25..955f492 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -479,7 +479,7 @@ static void *pulseRingWatcher(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -540,7 +540,7 @@ static void *pulseRingWatcher(void *_in) {
                     RKPulseRingFilterWorker *worker = &engine->workers[c];
                     worker->processOrigin = origin;
                     worker->processLength = length;
-                    worker->outputLength = MIN(gateCount - origin, length);
+                    worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                     origin += length;
                     if (engine->verbose) {
                         RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
@@ -738,7 +738,7 @@ static void *pulseRingWatcherV1(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -847,7 +847,7 @@ static void *pulseRingWatcherV1(void *_in) {
                 RKPulseRingFilterWorker *worker = &engine->workers[c];
                 worker->processOrigin = origin;
                 worker->processLength = length;
-                worker->outputLength = MIN(gateCount - origin, length);
+                worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                 origin += length;
                 if (engine->verbose) {
                     RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
-- 
2.43.0


From b4ec39a6bebd5e629a1e225a0ca3be0c00918df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 03/54] fix: allocate the ring filter history for the padded
 range of each core

---
 source/RKPulseRingFilter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 955f492..43085a0 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -168,7 +168,10 @@ static void *ringFilterCore(void *_in) {
     RKIQZ xx;
     RKIQZ yy;
     const int depth = RKMaximumIIRFilterTaps;
-    size_t filterSize = depth * engine->radarDescription->pulseCapacity / engine->coreCount * sizeof(RKFloat);
+    // The process length is rounded up to a multiple of the SIMD alignment, so is the capacity for each core
+    const size_t alignment = RKMemoryAlignSize / sizeof(RKFloat);
+    const size_t capacity = (engine->radarDescription->pulseCapacity + engine->coreCount * alignment - 1) / (engine->coreCount * alignment) * alignment;
+    size_t filterSize = depth * capacity * sizeof(RKFloat);
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.i, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.q, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&yy.i, RKMemoryAlignSize, 2 * filterSize));
-- 
2.43.0


From 4e098164fe422f798733d6961fb6fd5780eac461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 04/54] fix: engine states are updated atomically so that a
 concurrent stop is not lost

---
 headers/RadarKit/RKTypes.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index dd903f1..9438134 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -896,8 +896,13 @@ enum {
 //                    RKEngineStateChildActive -
 //                    RKEngineStateActive -
 //                    (RKEngineStateChildAllocated | RKEngineStateChildProperlyWired | RKEngineStateAllocated | RKEngineStateProperlyWired)
+// NOTE: The state is changed concurrently by the thread(s) of an engine and those that start / stop it
 //
+#if defined(__cplusplus)
 typedef uint32_t RKEngineState;
+#else
+typedef _Atomic uint32_t RKEngineState;
+#endif
 enum {
     RKEngineStateNull                            = 0,                          // Nothing
     RKEngineStateSleep0                          = 1,                          // Usually for a wait just outside of the main while loop
-- 
2.43.0


From 204c2caf3c2cb7ed2315b260a0a1c00ece5c2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 05/54] fix: a processed pulse is consumed only after the old
 slot is vacated, which could wipe a newly fed pulse

---
 source/RKPulseEngine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index cd0d5ae..99f7265 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -1412,9 +1412,10 @@ RKPulse *RKPulseEngineGetProcessedPulse(RKPulseEngine *engine, const bool blocki
             return NULL;
         }
     }
-    pulse->header.s |= RKPulseStatusConsumed;
+    // Vacate the old pulse first. Once this pulse is consumed, RKPulseEngineGetVacantPulse() may hand out the old slot
     RKPulse *oldPulse = RKGetPulseFromBuffer(engine->pulseBuffer, engine->oldIndex);
     oldPulse->header.s = RKPulseStatusVacant;
+    pulse->header.s |= RKPulseStatusConsumed;
     engine->doneIndex = RKNextModuloS(engine->doneIndex, engine->radarDescription->pulseBufferDepth);
     engine->oldIndex = RKNextModuloS(engine->oldIndex, engine->radarDescription->pulseBufferDepth);
     return pulse;
-- 
2.43.0


From 9e689ba952d02b82b1aad2a77d4ebe06f92f3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 06/54] fix: a sweep following a PPI or sector sweep is not in
 data collection before it is set up

---
 source/RKSteerEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..0c33472 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -856,6 +856,10 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
             }
         }
         V->progress |= RKScanProgressSetup;
+        // Only a PPI sweep can be in data collection while it is being set up
+        if (V->sweepCount == 0 || V->batterScans[V->i].mode != RKScanModePPI) {
+            V->progress &= ~RKScanProgressMiddle;
+        }
     }
 
     engine->actionIndex = RKNextModuloS(engine->actionIndex, RKPedestalActionBufferDepth);
-- 
2.43.0


From a14f79f72d6af6218eb7e042698d06357fec0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 07/54] fix: scan commands start a new sweep afresh: next keeps
 no progress, a queued lineup calls off a pending stop, a PPI does not end on
 its first position

---
 source/RKSteerEngine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 0c33472..d1bf41d 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -92,6 +92,8 @@ void RKSteerEngineStopSweeps(RKSteerEngine *engine) {
 }
 
 void RKSteerEngineStartSweeps(RKSteerEngine *engine) {
+    // Call off a pending stop, which is only carried out when the sweeps are inactive
+    engine->vcpHandle.progress &= ~RKScanProgressStopPedestal;
     engine->vcpHandle.active = true;
 }
 
@@ -585,6 +587,8 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     const RKScanPath *scan = &V->batterScans[V->i];
 
     if (V->progress == RKScanProgressNone) {
+        // Ready to send instructions but not long enough for a sweep to complete
+        V->tic = MIN(V->tic, V->toc);
         V->progress = RKScanProgressSetup;
         switch (scan->mode) {
             case RKScanModePPI:
@@ -958,6 +962,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
             return RKResultSuccess;
             break;
         case RKSteerCommandScanNext:
+            engine->vcpHandle.progress = RKScanProgressNone;
             RKSteerEngineNextHitter(engine);
             sprintf(response, "ACK. Volume advanced." RKEOL);
             return RKResultSuccess;
-- 
2.43.0


From 8e4c46719b372afbc7a67cc6a8ce09b40b934da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 08/54] fix: scan lineup summaries and log messages are kept
 within their buffers

---
 headers/RadarKit/RKSteerEngine.h |  3 ++-
 source/RKFoundation.c            |  7 ++++---
 source/RKSteerEngine.c           | 10 +++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/headers/RadarKit/RKSteerEngine.h b/headers/RadarKit/RKSteerEngine.h
index fa31b0a..59b5777 100644
--- a/headers/RadarKit/RKSteerEngine.h
+++ b/headers/RadarKit/RKSteerEngine.h
@@ -20,6 +20,7 @@
 #define RKPedestalVelocityTolerance    0.25f
 #define RKPedestalPointTimeOut         1500
 #define RKPedestalActionPeriod         0.05
+#define RKSteerEngineSummaryLength     1280                                     // Maximum length of a summary for each of batter, on deck and in the hole
 
 #define RKScanModeString(x) x == RKScanModeRHI ? "RHI" : ( \
 x == RKScanModePPI ? "PPI" : ( \
@@ -147,7 +148,7 @@ struct rk_position_steer_engine {
     int                    actionIndex;
     char                   scanString[RKMaximumStringLength];
     char                   response[RKMaximumStringLength];
-    char                   dump[RKMaximumStringLength];
+    char                   dump[3 * RKMaximumStringLength];
     pthread_t              threadId;
 
     // Status / health
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..852a79c 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -207,7 +207,8 @@ int RKLog(const char *whatever, ...) {
         }
         strncpy(colored_whatever + len, anchor, RKMaximumStringLength - len);
 
-        i += vsprintf(msg + i, colored_whatever, args);
+        i += vsnprintf(msg + i, RKMaximumStringLength - i - 16, colored_whatever, args);
+        i = MIN(i, RKMaximumStringLength - 17);
 
         if (rkGlobalParameters.showColor) {
             sprintf(msg + i, RKNoColor);
@@ -215,11 +216,11 @@ int RKLog(const char *whatever, ...) {
 
         free(colored_whatever);
     } else {
-        vsprintf(msg + i, anchor, args);
+        vsnprintf(msg + i, RKMaximumStringLength - i - 16, anchor, args);
     }
 
     if (whatever[strlen(whatever) - 1] != '\n') {
-        strncat(msg, "\n", RKMaximumStringLength - 1);
+        strcat(msg, "\n");
     }
     va_end(args);
     // Produce the string to the specified stream
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index d1bf41d..78eaa4d 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -137,7 +137,7 @@ void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
 
 int RKSteerEngineAddLineupSweep(RKSteerEngine *engine, const RKScanPath scan) {
     RKScanObject *V = &engine->vcpHandle;
-    if (V->inTheHoleCount < RKMaximumScanCount) {
+    if (V->inTheHoleCount < RKMaximumScanCount && V->onDeckCount < RKMaximumScanCount) {
         V->inTheHoleScans[V->inTheHoleCount++] = scan;
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
@@ -1018,6 +1018,10 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         int k = 0;
         char *saved;
         char *token = strchr(string, ' ');
+        if (token == NULL) {
+            sprintf(response, "NAK. Ill-defined volume." RKEOL);
+            return RKResultFailedToSetVCP;
+        }
         do {
             token++;
         } while (*token == ' ' && k++ < 8);
@@ -1200,6 +1204,10 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
     // Second pass, actually print it out using the consitent column width
     for (int i = 0; i < count; i++) {
+        if (k > RKSteerEngineSummaryLength - 160) {
+            k += sprintf(string + k, "%-7s ... and %d more\n", prefix, count - i);
+            break;
+        }
         k += sprintf(string + k, "%-7s %d : %s%s%s",
                      prefix,
                      i,
-- 
2.43.0


From 651aa64c9923453748bafa9bade612f506557c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 09/54] fix: a ray never holds more than RKMaximumPulsesPerRay
 pulses, the end pulse included

---
 source/RKMomentEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..a5734c1 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -732,7 +732,7 @@ static void *pulseGatherer(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
@@ -1036,7 +1036,7 @@ static void *pulseGathererV1(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     if (pulse->header.marker & RKMarkerSweepEnd) {
-- 
2.43.0


From 16770fe1f9460426d2747c4561c62107281cd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 10/54] fix: a one-step ray at the end of a sweep does not
 reach into the next sweep when boundary pulses are excluded

---
 source/RKMomentEngine.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index a5734c1..03cad34 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -736,12 +736,10 @@ static void *pulseGatherer(void *_in) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (count > 1) {
+                    // The end pulse of a sweep is not shared with another ray
+                    if (count > 1 && !(pulse->header.marker & RKMarkerSweepEnd)) {
                         count--;
                     }
-                    if (pulse->header.marker & RKMarkerSweepEnd) {
-                        count++;
-                    }
                 }
                 if (count > 0) {
                     // Number of samples in this ray and the correct plan index
-- 
2.43.0


From 5f8df42dd5ba9df9c93c9d5f0253cc360714c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 11/54] fix: after skipping pulses the moment engine starts a
 new ray, counts its rays once and is able to resume without verbose

---
 source/RKMomentEngine.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 03cad34..5e4e8c2 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -701,16 +701,20 @@ static void *pulseGatherer(void *_in) {
             do {
                 i = RKPreviousModuloS(i, engine->radarDescription->rayBufferDepth);
                 engine->momentSource[i].length = 0;
-                engine->business--;
                 ray = RKGetRayFromBuffer(engine->rayBuffer, i);
             } while (!(ray->header.s & RKRayStatusReady) && engine->state & RKEngineStateWantActive);
         } else if (skipCounter > 0) {
             // Skip processing if we are in skipping mode
-            if (--skipCounter == 0 && engine->verbose) {
-                RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+            if (--skipCounter == 0) {
+                if (engine->verbose) {
+                    RKLog(">%s Info. Skipped a chunk.   pulseIndex = %d vs %d\n", engine->name, *engine->pulseIndex, k);
+                }
                 for (i = 0; i < engine->coreCount; i++) {
                     engine->workers[i].lag = 0.0f;
                 }
+                // Start afresh, the ray in progress ended with the pulses that were skipped
+                i1 = (uint32_t)-1;
+                count = 0;
             }
         } else {
             // Gather the start and end pulses and post a worker to process for a ray
@@ -777,6 +781,7 @@ static void *pulseGatherer(void *_in) {
                     if (engine->verbose > 1) {
                         RKLog("%s count = %d   i1 = %d   i0 = %d\n", engine->name, count, i1, i0);
                     }
+                    engine->momentSource[j].origin = k;
                 }
             }
             // Keep counting up
-- 
2.43.0


From 38b3052a817fa43fb5f7b3eca2cee865487fca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 12/54] fix: a skipped ray carries none of the display data
 left in its slot

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 5e4e8c2..6c38a5f 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -156,7 +156,7 @@ static void zeroOutRay(RKRay *ray) {
         *f++ = NAN;
     }
     uint8_t *u = RKGetUInt8DataFromRay(ray, RKBaseProductIndexZ);
-    memset(u, 0, RKBaseProductCount * sizeof(uint8_t));
+    memset(u, 0, RKBaseProductCount * ray->header.capacity * sizeof(uint8_t));
 }
 
 int RKNoiseFromConfig(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCount) {
-- 
2.43.0


From 298fe32d6c3e09182d37861826eeb42a6d1e0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 13/54] fix: pulses that end up in no ray are marked as used,
 the recorder waited for them until their slots were overwritten

---
 source/RKMomentEngine.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 6c38a5f..3b3b453 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -569,6 +569,14 @@ static void *momentEngineCore(void *in) {
     return NULL;
 }
 
+// Pulses that do not get to be part of a ray are done with, too
+static void markPulsesAsUsed(RKMomentEngine *engine, const uint32_t origin, const uint32_t end) {
+    for (uint32_t k = origin; k != end; k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth)) {
+        RKPulse *pulse = RKGetPulseFromBuffer(engine->pulseBuffer, k);
+        pulse->header.s |= RKPulseStatusUsedForMoments;
+    }
+}
+
 static void *pulseGatherer(void *_in) {
     RKMomentEngine *engine = (RKMomentEngine *)_in;
 
@@ -683,6 +691,7 @@ static void *pulseGatherer(void *_in) {
     k = 0;   // pulse index
     c = 0;   // core index
     s = 0;   // sleep counter
+    engine->momentSource[j].origin = k;
     while (engine->state & RKEngineStateWantActive) {
         // The pulse
         pulse = RKGetPulseFromBuffer(engine->pulseBuffer, k);
@@ -696,12 +705,18 @@ static void *pulseGatherer(void *_in) {
             skipCounter = engine->radarDescription->pulseBufferDepth / 10;
             RKLog("%s Warning. Projected an overflow.   lead-min-max lag = %.2f / %.2f / %.2f   j = %d   pulseIndex = %d vs %d\n",
                 engine->name, engine->lag, engine->minWorkerLag, engine->maxWorkerLag, j, *engine->pulseIndex, k);
+            // Give up the pulses of the ray in progress
+            markPulsesAsUsed(engine, engine->momentSource[j].origin, RKNextModuloS(k, engine->radarDescription->pulseBufferDepth));
             // Skip the ray: set source length to 0 for those that are currenly being or have not been processed. Save the j-th source, which is current.
             i = j;
             do {
                 i = RKPreviousModuloS(i, engine->radarDescription->rayBufferDepth);
-                engine->momentSource[i].length = 0;
                 ray = RKGetRayFromBuffer(engine->rayBuffer, i);
+                if (!(ray->header.s & RKRayStatusReady)) {
+                    markPulsesAsUsed(engine, engine->momentSource[i].origin,
+                                     RKNextNModuloS(engine->momentSource[i].origin, engine->momentSource[i].length + 1, engine->radarDescription->pulseBufferDepth));
+                }
+                engine->momentSource[i].length = 0;
             } while (!(ray->header.s & RKRayStatusReady) && engine->state & RKEngineStateWantActive);
         } else if (skipCounter > 0) {
             // Skip processing if we are in skipping mode
@@ -713,9 +728,11 @@ static void *pulseGatherer(void *_in) {
                     engine->workers[i].lag = 0.0f;
                 }
                 // Start afresh, the ray in progress ended with the pulses that were skipped
+                engine->momentSource[j].origin = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
                 i1 = (uint32_t)-1;
                 count = 0;
             }
+            pulse->header.s |= RKPulseStatusUsedForMoments;
         } else {
             // Gather the start and end pulses and post a worker to process for a ray
             if (pulse->header.positionIndex == (uint32_t)-1) {
@@ -732,6 +749,7 @@ static void *pulseGatherer(void *_in) {
             }
             i0 = pulse->header.positionIndex;
             if (pulse->header.marker & RKMarkerSweepBegin) {
+                markPulsesAsUsed(engine, engine->momentSource[j].origin, k);
                 engine->momentSource[j].origin = k;
                 count = 0;
                 i1 = i0;
@@ -781,7 +799,6 @@ static void *pulseGatherer(void *_in) {
                     if (engine->verbose > 1) {
                         RKLog("%s count = %d   i1 = %d   i0 = %d\n", engine->name, count, i1, i0);
                     }
-                    engine->momentSource[j].origin = k;
                 }
             }
             // Keep counting up
-- 
2.43.0


From 35ab06533eeb9bd5f942e1753b0abc35740dd03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 14/54] fix: an azimuth interpolated to exactly north is 0, not
 360 degrees

---
 source/RKDSP.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index e0b2cd9..3ae9cf2 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -26,11 +26,12 @@ float RKGetMinorSectorInDegrees(const float angle1, const float angle2) {
 float RKInterpolatePositiveAngles(const float angleBefore, const float angleAfter, const float alpha) {
     float value = RKGetSignedMinorSectorInDegrees(angleAfter, angleBefore);
     value = angleBefore + alpha * value;
-    if (value > 360.0f) {
-        value -= 360.0f;
-    } else if (value < 0.0f) {
+    if (value < 0.0f) {
         value += 360.0f;
     }
+    if (value >= 360.0f) {
+        value -= 360.0f;
+    }
     return value;
 }
 
-- 
2.43.0


From d8924c05a3dc39cc30c70804e456ddb45211ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 15/54] fix: a completed sweep ends once and nothing left of
 its last interval is taken for another sweep

---
 source/RKPositionEngine.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKPositionEngine.c b/source/RKPositionEngine.c
index 222f04f..a7f112f 100644
--- a/source/RKPositionEngine.c
+++ b/source/RKPositionEngine.c
@@ -239,7 +239,10 @@ static void *pulseTagger(void *_in) {
         marker0 = RKMarkerNull;
 
         // First set of logics are purely from position
-        if (positionBefore->flag & RKPositionFlagScanActive) {
+        // What is left of the interval in which a sweep was completed starts another sweep only if the next position continues the scan
+        const bool hasComplete = positionBefore->flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete);
+        const bool isContinued = positionAfter->flag & RKPositionFlagScanActive && !((positionBefore->flag ^ positionAfter->flag) & RKPositionFlagScanModeMask);
+        if (positionBefore->flag & RKPositionFlagScanActive && (i > 0 || !hasComplete || isContinued)) {
             marker0 |= RKMarkerSweepMiddle;
         }
         if ((positionBefore->flag & RKPositionFlagElevationPoint) && (positionBefore->flag & RKPositionFlagAzimuthSweep)) {
@@ -255,15 +258,16 @@ static void *pulseTagger(void *_in) {
         // NOTE: i = 0 means this loop is still using the same pair of positionBefore and positionAfter
         //       i = 1 means the next pair was valid, this is the case when pulses come in equal or faster than positions
         //       i > 1 means the next pair was invalid, this is the case when pulses come in slower than positions
-        if (i == 1 && (positionBefore->flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete))) {
+        const bool isOpen = marker1 & RKMarkerSweepMiddle && !(marker1 & RKMarkerSweepEnd);
+        if (i > 0 && hasComplete) {
             marker0 |= RKMarkerSweepEnd;
-        } else if (i > 1 && hasSweepEnd && !(marker1 & RKMarkerSweepEnd)) {
+        } else if (i > 1 && hasSweepEnd && isOpen) {
             marker0 |= RKMarkerSweepEnd;
         }
         if (!(marker1 & RKMarkerSweepMiddle) && (marker0 & RKMarkerSweepMiddle)) {
             marker0 |= RKMarkerSweepBegin;
         }
-        if ((marker1 & RKMarkerSweepMiddle) && !(marker0 & RKMarkerSweepMiddle)) {
+        if (isOpen && !(marker0 & RKMarkerSweepMiddle)) {
             marker0 |= RKMarkerSweepEnd;
         }
         if ((marker1 & RKMarkerSweepEnd) && (marker0 & RKMarkerSweepMiddle)) {
-- 
2.43.0


From 9efddbb36bb2c9192545cd964bd1e64301f3aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 16/54] fix: an RHI sweep is marked as one, not a PPI sweep as
 both; missing argument in the message of an empty sweep

---
 source/RKSweepEngine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 8b8a43a..7e7a2f3 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -103,7 +103,7 @@ static void *sweepManager(void *in) {
     RKSweep *sweep = RKSweepCollect(engine, index);
     if (sweep == NULL) {
         if (engine->verbose > 1) {
-            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", index);
+            RKLog("%s Empty sweep   scratchSpaceIndex = %d\n", engine->name, index);
         }
         pthread_mutex_lock(&engine->productMutex);
         engine->business--;
@@ -944,7 +944,7 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     sweep->header.endTime = (time_t)E->header.endTime.tv_sec;
     sweep->header.baseProductList = overallBaseProductList;
     sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
+    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI;
     if (!sweep->header.isPPI && !sweep->header.isRHI) {
         config = &engine->configBuffer[T->header.configIndex];
         sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-- 
2.43.0


From c3f5425b69ad1b0e862d47504393df4d2863229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 17/54] fix: a sweep without some of the base products no
 longer fills and records others in their place; product headers carry the
 whole VCP definition

---
 source/RKProduct.c     | 2 +-
 source/RKSweepEngine.c | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/RKProduct.c b/source/RKProduct.c
index 2dc5303..7881499 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -101,7 +101,7 @@ int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
     product->header.SNRThreshold = sweep->header.config.SNRThreshold;
     product->header.SQIThreshold = sweep->header.config.SQIThreshold;
     memcpy(product->header.waveformName, sweep->header.config.waveformName, sizeof(RKName));
-    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, sizeof(RKMaximumCommandLength));
+    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, RKMaximumCommandLength);
 
     // Expand if the current capacity is not sufficient
     if (product->capacity < requiredCapacity) {
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 7e7a2f3..36dbb40 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -145,12 +145,15 @@ static void *sweepManager(void *in) {
     char *filelist = engine->scratchSpaces[index].filelist;
     char *summary = engine->scratchSpaces[index].summary;
 
-    int productCount = __builtin_popcount(sweep->header.baseProductList & engine->baseProductList);
+    RKBaseProductList momentList = engine->baseProductList;
+    const int productCount = __builtin_popcount(momentList);
 
-    // Base products
+    // Base products, only those the sweep has
     size_t productMemoryUsage = 0;
     for (p = 0; p < productCount; p++) {
-        if (engine->baseMomentProductIds[p]) {
+        const RKBaseProductList moment = momentList & -momentList;
+        momentList ^= moment;
+        if (engine->baseMomentProductIds[p] && sweep->header.baseProductList & moment) {
             RKProduct *product = RKSweepEngineGetVacantProduct(engine, sweep, engine->baseMomentProductIds[p]);
             if (product == NULL) {
                 RKLog("Error. Unable to get a product slot   p = %d   pid = %d.\n", p, engine->baseMomentProductIds[p]);
-- 
2.43.0


From 230037a2a6bcc064bc29ac122a84cf562c88471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 18/54] fix: the sweep engine releases only rays not in use
 again, and on stop neither loses the last sweep nor leaves its releaser
 behind

---
 source/RKSweepEngine.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 36dbb40..e1132fd 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -47,7 +47,8 @@ static void *rayReleaser(void *in) {
     // Grab the anchor reference as soon as possible. Modulo add 2 to get to
     // the (RKSweepScratchSpaceDepth - 2)-th oldest scratch space
     RKSweepScratchSpace *space = &engine->scratchSpaces[engine->scratchSpaceIndex];
-    const uint8_t count = engine->radarDescription->rayBufferDepth / space->rayCount;
+    const RKIdentifier latest = space->rays[0]->header.i;
+    const uint32_t count = engine->radarDescription->rayBufferDepth / space->rayCount;
     const uint8_t index = count >= RKSweepScratchSpaceDepth
                         ? RKNextNModuloS(engine->scratchSpaceIndex, 2, RKSweepScratchSpaceDepth)
                         : RKPreviousNModuloS(engine->scratchSpaceIndex, 2, RKSweepScratchSpaceDepth);
@@ -65,10 +66,12 @@ static void *rayReleaser(void *in) {
     if (engine->verbose > 1) {
         RKLog("%s rayReleaser()  index = %d   count = %d\n", engine->name, index, space->rayCount);
     }
-    // Set them free
+    // Set them free, unless the slot has been reused for this sweep or a newer one
     for (i = 0; i < space->rayCount; i++) {
         ray = space->rays[i];
-        ray->header.s = RKRayStatusVacant;
+        if (ray->header.i < latest) {
+            ray->header.s = RKRayStatusVacant;
+        }
     }
     space->rayCount = 0;
 
@@ -446,10 +449,11 @@ static void *rayGatherer(void *in) {
             tic = engine->tic;
             if (pthread_create(&tidSweepManager, NULL, sweepManager, engine)) {
                 RKLog("%s Error. Unable to launch a sweep writer.\n", engine->name);
+                exit(EXIT_FAILURE);
             }
             do {
                 usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
+            } while (tic == engine->tic);
 
             // If the rayReleaser is still going, wait for it to finish, launch a new one, wait for engine->scratchSpaceIndex is grabbed through engine->tic
             if (tidRayReleaser) {
@@ -458,10 +462,11 @@ static void *rayGatherer(void *in) {
             tic = engine->tic;
             if (pthread_create(&tidRayReleaser, NULL, rayReleaser, engine)) {
                 RKLog("%s Error. Unable to launch a ray releaser.\n", engine->name);
+                exit(EXIT_FAILURE);
             }
             do {
                 usleep(50000);
-            } while (tic == engine->tic && engine->state & RKEngineStateWantActive);
+            } while (tic == engine->tic);
 
             // Ready for next collection while the sweepManager is busy
             engine->scratchSpaceIndex = RKNextModuloS(engine->scratchSpaceIndex, RKSweepScratchSpaceDepth);
@@ -536,6 +541,10 @@ static void *rayGatherer(void *in) {
         pthread_join(tidSweepManager, NULL);
         tidSweepManager = (pthread_t)0;
     }
+    if (tidRayReleaser) {
+        pthread_join(tidRayReleaser, NULL);
+        tidRayReleaser = (pthread_t)0;
+    }
     for (p = 0; p < productCount; p++) {
         RKSweepEngineUndescribeProduct(engine, engine->baseMomentProductIds[p]);
     }
-- 
2.43.0


From 6b7bff24295b20f49879f5253d3dd7a4fe89f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 19/54] fix: the sweep engine counts the sweeps in progress,
 whatever way they end

---
 source/RKSweepEngine.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index e1132fd..0c6821a 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -177,12 +177,6 @@ static void *sweepManager(void *in) {
         return NULL;
     }
 
-    if (!(engine->state & RKEngineStateWantActive)) {
-        pthread_mutex_lock(&engine->productMutex);
-        engine->business--;
-        pthread_mutex_unlock(&engine->productMutex);
-    }
-
     // Mark the state
     engine->state |= RKEngineStateWritingFile;
 
@@ -334,6 +328,8 @@ static void *rayGatherer(void *in) {
     struct timeval t0, t1;
 
     uint32_t is = 0;   // Start index
+    bool open = false; // A sweep has begun but not ended
+    bool begin;
     uint64_t tic = 0;  // Local copy of engine tic
 
     pthread_t tidSweepManager = (pthread_t)0;
@@ -424,8 +420,24 @@ static void *rayGatherer(void *in) {
         // A sweep is complete
         if (ray->header.marker & RKMarkerSweepEnd && is == j) {
             RKLog("%s Warning. A sweep is complete is == j.\n", engine->name);
-            ray->header.s = RKRayStatusVacant;
+            // It may as well be the first ray of the next sweep
+            begin = ray->header.marker & RKMarkerSweepBegin;
+            if (!begin) {
+                ray->header.s = RKRayStatusVacant;
+            }
+            if (open != begin) {
+                pthread_mutex_lock(&engine->productMutex);
+                engine->business += begin ? 1 : -1;
+                pthread_mutex_unlock(&engine->productMutex);
+            }
+            open = begin;
         } else if (ray->header.marker & RKMarkerSweepEnd) {
+            // The manager counts this sweep off, the next one is open if this ray begins it
+            begin = ray->header.marker & RKMarkerSweepBegin;
+            pthread_mutex_lock(&engine->productMutex);
+            engine->business += (open ? 0 : 1) + (begin ? 1 : 0);
+            pthread_mutex_unlock(&engine->productMutex);
+            open = begin;
             // Gather the rays
             n = 0;
             do {
@@ -475,9 +487,13 @@ static void *rayGatherer(void *in) {
             }
             rays = engine->scratchSpaces[engine->scratchSpaceIndex].rays;
         } else if (ray->header.marker & RKMarkerSweepBegin) {
-            pthread_mutex_lock(&engine->productMutex);
-            engine->business++;
-            pthread_mutex_unlock(&engine->productMutex);
+            // An open sweep that is abandoned gives its count to this one
+            if (!open) {
+                pthread_mutex_lock(&engine->productMutex);
+                engine->business++;
+                pthread_mutex_unlock(&engine->productMutex);
+            }
+            open = true;
             if (engine->verbose > 1) {
                 RKLog("%s Info. RKMarkerSweepBegin   is = %d   j = %d\n", engine->name, is, j);
             }
@@ -545,6 +561,11 @@ static void *rayGatherer(void *in) {
         pthread_join(tidRayReleaser, NULL);
         tidRayReleaser = (pthread_t)0;
     }
+    if (open) {
+        pthread_mutex_lock(&engine->productMutex);
+        engine->business--;
+        pthread_mutex_unlock(&engine->productMutex);
+    }
     for (p = 0; p < productCount; p++) {
         RKSweepEngineUndescribeProduct(engine, engine->baseMomentProductIds[p]);
     }
-- 
2.43.0


From 1600ccc0742876545df84bc661143f7653601fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 20/54] fix: product slots are searched within the buffer and
 under the lock, only registered products are found

---
 source/RKSweepEngine.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 0c6821a..cc672fb 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -388,6 +388,10 @@ static void *rayGatherer(void *in) {
                 j = RKPreviousModuloS(j, engine->radarDescription->rayBufferDepth);
                 ray = RKGetRayFromBuffer(engine->rayBuffer, j);
                 ray->header.marker |= RKMarkerSweepEnd;
+                if (is == j) {
+                    // A sweep of just this ray is dropped
+                    ray->header.marker &= ~RKMarkerSweepBegin;
+                }
                 break;
             }
             usleep(10000);
@@ -759,15 +763,16 @@ char *RKSweepEngineLatestSummary(RKSweepEngine *engine) {
 RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc desc) {
     int i = 0;
     RKProductId productId = 42;
-    while (engine->productBuffer[i].flag & RKProductStatusActive && i < RKMaximumProductCount) {
+    pthread_mutex_lock(&engine->productMutex);
+    while (i < engine->productBufferDepth && engine->productBuffer[i].flag & RKProductStatusActive) {
         productId++;
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
+        pthread_mutex_unlock(&engine->productMutex);
         RKLog("%s Error. Unable to add anymore user products.\n", engine->name);
         return 0;
     }
-    pthread_mutex_lock(&engine->productMutex);
     engine->productBuffer[i].i = 0;
     engine->productBuffer[i].pid = productId;
     engine->productBuffer[i].desc = desc;
@@ -784,20 +789,18 @@ RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc de
 
 int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
-        if (engine->productBuffer[i].pid == productId) {
+    pthread_mutex_lock(&engine->productMutex);
+    while (i < engine->productBufferDepth) {
+        if (engine->productBuffer[i].flag & RKProductStatusActive && engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
+        pthread_mutex_unlock(&engine->productMutex);
         RKLog("%s Error. Unable to locate productId = 0x%04x.\n", engine->name, productId);
         return RKResultFailedToFindProductId;
     }
-    if (engine->productBuffer[i].flag == RKProductStatusVacant) {
-        RKLog("%s Warning. The productId = 0x%04x is vacant.", engine->name, productId);
-    }
-    pthread_mutex_lock(&engine->productMutex);
     engine->productBuffer[i].flag = RKProductStatusVacant;
     RKLog(">%s Product %s%s%s released\n", engine->name,
           rkGlobalParameters.showColor ? RKYellowColor : "",
@@ -811,17 +814,18 @@ int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId)
 
 RKProduct *RKSweepEngineGetVacantProduct(RKSweepEngine *engine, RKSweep *sweep, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
-        if (engine->productBuffer[i].pid == productId) {
+    pthread_mutex_lock(&engine->productMutex);
+    while (i < engine->productBufferDepth) {
+        if (engine->productBuffer[i].flag & RKProductStatusActive && engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
+        pthread_mutex_unlock(&engine->productMutex);
         RKLog("%s Error. Unable to locate productId = %d.\n", engine->name, productId);
         return NULL;
     }
-    pthread_mutex_lock(&engine->productMutex);
     engine->productBuffer[i].flag |= RKProductStatusSleep1;
     pthread_mutex_unlock(&engine->productMutex);
     return &engine->productBuffer[i];
-- 
2.43.0


From 932789333593105085267db230622b7f4e3e153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 21/54] fix: RKConfigAdvance ignores a bad waveform instead of
 returning with the lock held

---
 source/RKConfig.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..1073046 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -162,7 +162,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
-                    return;
+                    break;
                 }
                 newConfig->waveform = waveform;
                 //strncpy(newConfig->waveformName, waveform->name, RKNameLength - 1);
@@ -173,7 +173,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
-                    return;
+                    break;
                 }
                 newConfig->waveformDecimate = waveform;
                 sprintf(stringBuffer[0], "WaveformDecimate = '%s' @ %p", waveform->name, waveform);
-- 
2.43.0


From 9a57f35bb075d80e88b8918861d564babf9acdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 22/54] fix: a new sweep can be tagged before any waveform is
 set

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 1073046..aa42015 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -89,7 +89,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                         rkGlobalParameters.showColor ? RKDeepPinkColor : "",
                         RKMarkerScanTypeString(newConfig->startMarker),
                         rkGlobalParameters.showColor ? RKNoColor : "",
-                        RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8));
+                        newConfig->waveform ? RKVariableInString("filterCount", &newConfig->waveform->count, RKValueTypeUInt8) : "");
                 break;
             case RKConfigKeyPRT:
                 newConfig->prt[0] = (RKFloat)va_arg(args, double);
-- 
2.43.0


From 3996b0bfdae142356c7729f587b03307a44b22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 23/54] fix: a long VCP definition does not overflow the log
 string

---
 source/RKConfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index aa42015..b3267d3 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -128,7 +128,7 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 if (string == NULL) {
                     sprintf(stringBuffer[0], "VCP = (NULL)\n");
                 } else {
-                    sprintf(stringBuffer[0], "VCP = %s\n", string);
+                    snprintf(stringBuffer[0], RKStatusStringLength, "VCP = %s\n", string);
                     strncpy(newConfig->vcpDefinition, string, RKMaximumCommandLength - 8);
                 }
                 break;
-- 
2.43.0


From 4349fa5e3425381168dd8735f81e6af64d964ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 24/54] fix: pass the PRF as the double that RKConfigAdvance
 reads

---
 source/RKRadar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 61f0338..01fd988 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1552,7 +1552,7 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-    RKAddConfig(radar, RKConfigKeyPRF, prf, RKConfigKeyNull);
+    RKAddConfig(radar, RKConfigKeyPRF, (double)prf, RKConfigKeyNull);
     return RKResultSuccess;
 }
 
@@ -1787,7 +1787,7 @@ int RKGoLive(RKRadar *radar) {
     // Add a dummy config to get things started if there hasn't been one from the user
     if (radar->configIndex == 0) {
         RKAddConfig(radar,
-                    RKConfigKeyPRF, 1000,
+                    RKConfigKeyPRF, 1000.0,
                     RKConfigKeySystemNoise, 0.1, 0.1,
                     RKConfigKeySystemZCal, -27.0, -27.0,
                     RKConfigKeySystemDCal, -0.01,
-- 
2.43.0


From cd2b07fbb8de902c298dcda0bf26298c885da60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 25/54] fix: a status letter in a stream request does not
 discard the letters before it

---
 source/RKFoundation.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 852a79c..a4d8b6a 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1559,31 +1559,31 @@ RKStream RKStreamFromString(const char * string) {
     while (j++ < strlen(string)) {
         switch (*c) {
             case '0':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
                 break;
             case '1':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
                 break;
             case '2':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
                 break;
             case '3':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
                 break;
             case '4':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
                 break;
             case '5':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 break;
             case '6':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 break;
             case '7':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
                 break;
             case '8':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
                 break;
             case 'x':
                 flag |= RKStreamStatusTerminalChange;
-- 
2.43.0


From 4e3e587a5a84b8cb9aa8c71ff8887643a9185e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 26/54] fix: render the status view of a stream set by its
 code, not bit by bit

---
 source/RKFoundation.c | 44 +++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index a4d8b6a..8132cc1 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1700,20 +1700,36 @@ RKStream RKStreamFromString(const char * string) {
 int RKStringFromStream(char *string, RKStream stream) {
     int j = 0;
     // Exclusive part from RKStreamStatusMask
-    if (stream & RKStreamStatusPulses) {
-        j += sprintf(string + j, "1");
-    } else if (stream & RKStreamStatusRays) {
-        j += sprintf(string + j, "2");
-    } else if (stream & RKStreamStatusPositions) {
-        j += sprintf(string + j, "3");
-    } else if (stream & RKStreamStatusEngines) {
-        j += sprintf(string + j, "4");
-    } else if (stream & RKStreamStatusBuffers) {
-        j += sprintf(string + j, "5");
-    } else if (stream & RKStreamASCIIArtZ) {
-        j += sprintf(string + j, "6");
-    } else if (stream & RKStreamASCIIArtHealth) {
-        j += sprintf(string + j, "7");
+    switch (stream & RKStreamStatusMask) {
+        case RKStreamStatusPositions:
+            j += sprintf(string + j, "0");
+            break;
+        case RKStreamStatusPulses:
+            j += sprintf(string + j, "1");
+            break;
+        case RKStreamStatusRays:
+            j += sprintf(string + j, "2");
+            break;
+        case RKStreamStatusIngest:
+            j += sprintf(string + j, "3");
+            break;
+        case RKStreamStatusEngines:
+            j += sprintf(string + j, "4");
+            break;
+        case RKStreamStatusBuffers:
+            j += sprintf(string + j, "5");
+            break;
+        case RKStreamASCIIArtZ:
+            j += sprintf(string + j, "6");
+            break;
+        case RKStreamASCIIArtHealth:
+            j += sprintf(string + j, "7");
+            break;
+        case RKStreamASCIIArtVCP:
+            j += sprintf(string + j, "8");
+            break;
+        default:
+            break;
     }
     if (stream & RKStreamStatusProcessorStatus) { j += sprintf(string + j, "!"); }
     if (stream & RKStreamHealthInJSON)          { j += sprintf(string + j, "h"); }
-- 
2.43.0


From b72c38a24c47d8bce8aa868bef38a4ba2ab4d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 27/54] fix: an addition refused for lack of room does not
 count as a control or calibration

---
 source/RKRadar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 01fd988..d424928 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3034,11 +3034,11 @@ void RKUpdateWaveformCalibration(RKRadar *radar, const uint8_t index, const RKWa
 }
 
 void RKAddWaveformCalibration(RKRadar *radar, const RKWaveformCalibration *calibration) {
-    uint8_t index = radar->waveformCalibrationCount++;
-    if (index >= radar->desc.waveformCalibrationCapacity) {
+    if (radar->waveformCalibrationCount >= radar->desc.waveformCalibrationCapacity) {
         RKLog("Error. Cannot add anymore waveform calibration.\n");
         return;
     }
+    uint8_t index = radar->waveformCalibrationCount++;
     RKUpdateWaveformCalibration(radar, index, calibration);
 }
 
@@ -3069,20 +3069,20 @@ void RKUpdateControl(RKRadar *radar, const uint8_t index, const RKControl *contr
 }
 
 void RKAddControl(RKRadar *radar, const RKControl *control) {
-    uint8_t index = radar->controlCount++;
-    if (index >= radar->desc.controlCapacity) {
+    if (radar->controlCount >= radar->desc.controlCapacity) {
         RKLog("Error. Cannot add anymore controls.\n");
         return;
     }
+    uint8_t index = radar->controlCount++;
     RKUpdateControl(radar, index, control);
 }
 
 void RKAddControlAsLabelAndCommand(RKRadar *radar, const char *label, const char *command) {
-    uint8_t index = radar->controlCount++;
-    if (index >= radar->desc.controlCapacity) {
+    if (radar->controlCount >= radar->desc.controlCapacity) {
         RKLog("Error. Cannot add anymore controls.\n");
         return;
     }
+    uint8_t index = radar->controlCount++;
     RKControl *target = &radar->controls[index];
     strncpy(target->label, label, RKNameLength - 1);
     target->label[RKNameLength - 1] = '\0';
-- 
2.43.0


From 0385b96ee1c5cae9cc582014ad1be61318211f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 28/54] fix: close the preference file after reading it

---
 source/RKPreference.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 2f0fad1..c51b606 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -136,6 +136,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
 
     free(line);
+    fclose(fid);
 
     return RKResultSuccess;
 }
-- 
2.43.0


From 65ab011fd218db939ab7bb736763db43911628a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 29/54] fix: a preference keyword without a value does not take
 text of the line before

---
 source/RKPreference.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index c51b606..033d75e 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -74,7 +74,9 @@ int RKPreferenceUpdate(RKPreference *preference) {
             while (*s != '\0' && (*s != ' ' && *s != '\t')) {
                 s++;
             }
-            *s++ = '\0';
+            if (*s != '\0') {
+                *s++ = '\0';
+            }
             // Now, find the first character
             while (*s != '\0' && (*s == ' ' || *s == '\t')) {
                 s++;
-- 
2.43.0


From 3fc2ea246427cb2a1c06e6ed667b50145521b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 30/54] fix: an indented comment in a preference file is not an
 entry, an indented entry keeps its keyword

---
 source/RKPreference.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 033d75e..ee2bc93 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -61,7 +61,11 @@ int RKPreferenceUpdate(RKPreference *preference) {
             break;
         }
         RKStripTail(line);
-        if (line[0] == '#' || strlen(line) < 2) {
+        // Skip the white space in front
+        while (*c == ' ' || *c == '\t') {
+            c++;
+        }
+        if (*c == '#' || strlen(c) < 2) {
             #if defined(DEBUG)
             printf("Skip line %d %s\n", i, line);
             #endif
@@ -70,7 +74,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
             printf("Process line %d %s\n", i, line);
             #endif
             // Find the first white space, divide the line into keyword and valueString
-            s = line;
+            s = c;
             while (*s != '\0' && (*s != ' ' && *s != '\t')) {
                 s++;
             }
@@ -91,7 +95,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
                     *e = '\0';
                 }
             }
-            strncpy(preference->objects[k].keyword, line, RKNameLength);
+            strncpy(preference->objects[k].keyword, c, RKNameLength);
             strncpy(preference->objects[k].valueString, s, RKMaximumStringLength);
             RKStripTail(preference->objects[k].valueString);
             preference->objects[k].isValid = true;
-- 
2.43.0


From 0b7dc513bc8675f5f6e02a839a3cc3e227c59075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 31/54] fix: keep overlong preference keywords, words and
 strings within their storage

---
 source/RKPreference.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index ee2bc93..f2109d0 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -95,8 +95,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
                     *e = '\0';
                 }
             }
-            strncpy(preference->objects[k].keyword, c, RKNameLength);
-            strncpy(preference->objects[k].valueString, s, RKMaximumStringLength);
+            strncpy(preference->objects[k].keyword, c, RKNameLength - 1);
+            strncpy(preference->objects[k].valueString, s, RKMaximumStringLength - 1);
             RKStripTail(preference->objects[k].valueString);
             preference->objects[k].isValid = true;
             if ((preference->objects[k].valueString[0] >= '0' && preference->objects[k].valueString[0] <= '9') ||
@@ -113,7 +113,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
 					   !strncasecmp(preference->objects[k].valueString, "true", 4) ||
 					   !strncasecmp(preference->objects[k].valueString, "yes", 3) ||
 					   !strncasecmp(preference->objects[k].valueString, "no", 2)) {
-				sscanf(preference->objects[k].valueString, "%s %s %s %s",
+				sscanf(preference->objects[k].valueString, "%127s %127s %127s %127s",
 					   preference->objects[k].subStrings[0],
 					   preference->objects[k].subStrings[1],
 					   preference->objects[k].subStrings[2],
@@ -157,7 +157,7 @@ RKPreferenceObject *RKPreferenceFindKeyword(RKPreference *preference, const char
     }
     while (k < RKPreferenceObjectCount && preference->objects[k].isValid == true) {
         if (!strcasecmp(preference->objects[k].keyword, keyword)) {
-            strcpy(preference->previousKeyword, keyword);
+            strcpy(preference->previousKeyword, preference->objects[k].keyword);
             preference->previousIndex = k;
             return &preference->objects[k];
         }
@@ -229,7 +229,7 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
                     break;
                 case RKParameterTypeString:
                     // For string type, count is used as the maximum length, i = count ensure there is only 1 iteration
-                    strncpy((char *)target, object->valueString, count);
+                    snprintf((char *)target, count, "%s", object->valueString);
                     k += snprintf(string + k, RKMaximumStringLength - k, " %s", (char *)target);
                     i = count;
                     break;
@@ -256,7 +256,7 @@ int RKControlFromPreferenceObject(RKControl *control, RKPreferenceObject *object
 int RWaveformCalibrationFromPreferenceObject(RKWaveformCalibration *calibration, RKPreferenceObject *object) {
     int j, n;
     char *c;
-    n = sscanf(object->valueString, "%s %" SCNu8, calibration->name, &calibration->count);
+    n = sscanf(object->valueString, "%127s %" SCNu8, calibration->name, &calibration->count);
     if (n != 2) {
         RKLog("Error. Unable to parse waveform calibration.");
         return RKResultIncompleteWaveformCalibration;
-- 
2.43.0


From 51e3e1b8a5e323e35b85ab154e40da5bac1c474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 32/54] fix: lookups start over when the preference file is
 read again

---
 source/RKPreference.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index f2109d0..e114a65 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -47,6 +47,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
     memset(preference->objects, 0, RKPreferenceObjectCount * sizeof(RKPreferenceObject));
     preference->count = 0;
+    preference->previousIndex = 0;
+    preference->previousKeyword[0] = '\0';
 
     char *line = (char *)malloc(RKMaximumStringLength);
 
@@ -149,7 +151,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
 
 RKPreferenceObject *RKPreferenceFindKeyword(RKPreference *preference, const char *keyword) {
     int k = 0;
-    if (!strcasecmp(keyword, preference->previousKeyword)) {
+    if (preference->previousKeyword[0] != '\0' && !strcasecmp(keyword, preference->previousKeyword)) {
         k = preference->previousIndex + 1;
         if (k >= preference->count) {
             return NULL;
-- 
2.43.0


From 656425a593cf4aae6b103acdd7e3d5e3867619d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 33/54] fix: RKPreferenceGetKeywordCount counts the entries of
 the keyword

---
 source/RKPreference.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index e114a65..37ca3c7 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -170,12 +170,14 @@ RKPreferenceObject *RKPreferenceFindKeyword(RKPreference *preference, const char
 
 int RKPreferenceGetKeywordCount(RKPreference *preference, const char *keyword) {
     int k = 0;
+    int n = 0;
     while (k < RKPreferenceObjectCount && preference->objects[k].isValid == true) {
         if (!strcasecmp(preference->objects[k].keyword, keyword)) {
-            k++;
+            n++;
         }
+        k++;
     }
-    return k;
+    return n;
 }
 
 int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, const char *keyword, void *target, const int type, const int count) {
-- 
2.43.0


From 7ab54095003f6df2872fddf7ff1d014ec46c6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 34/54] fix: RKParseQuotedStrings stops at the end of the text
 when a quote is left open

---
 source/RKFoundation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 8132cc1..883c034 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2097,13 +2097,13 @@ void RKParseQuotedStrings(const char *source, ...) {
         q = *s++;
         // Look for the ending quote
         e = s;
-        while (*e != q && *e != q) {
+        while (*e != q && *e != '\0') {
             e++;
         }
         length = (size_t)(e - s);
         strncpy(string, s, length);
         string[length] = '\0';
-        s = e + 1;
+        s = *e == '\0' ? e : e + 1;
         // Get the next string
         string = va_arg(args, char *);
     }
-- 
2.43.0


From 6444b8f0f27f7cfee6eb3e05bc161a12171dcdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 35/54] fix: a control from a preference is cut to the size of
 its fields

---
 source/RKPreference.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 37ca3c7..4e1a888 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -249,7 +249,10 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
 }
 
 int RKControlFromPreferenceObject(RKControl *control, RKPreferenceObject *object) {
-    RKParseQuotedStrings(object->valueString, control->label, control->command, NULL);
+    char label[RKMaximumStringLength] = "", command[RKMaximumStringLength] = "";
+    RKParseQuotedStrings(object->valueString, label, command, NULL);
+    snprintf(control->label, sizeof(control->label), "%.*s", (int)sizeof(control->label) - 1, label);
+    snprintf(control->command, sizeof(control->command), "%.*s", (int)sizeof(control->command) - 1, command);
     if (strlen(control->label) == 0 || strlen(control->command) == 0) {
         RKLog("Warning. Incomplete control. %s\n", object->valueString);
         return RKResultIncompleteControl;
-- 
2.43.0


From cae2c2fca5706f34297cb68a9d1f9b42cc9441ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 36/54] fix: RKStripTail leaves an empty string alone

---
 source/RKMisc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..db7b775 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1018,6 +1018,9 @@ char *RKSignalString(const int signal) {
 // Strip out \r, \n, white space, \10 (BS), etc.
 int RKStripTail(char *string) {
     int k = 0;
+    if (*string == '\0') {
+        return k;
+    }
     char *c = string + strlen(string) - 1;
     while (c != string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == 10)) {
         *c-- = '\0';
-- 
2.43.0


From 8817fc71ae38a2ea1dffe8fa9973161b8ce44550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 37/54] fix: command queue operations happen under its lock, a
 full queue refuses, a popped command is a copy

---
 source/RKFoundation.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 883c034..211679c 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2429,31 +2429,36 @@ RKCommandQueue *RKCommandQueueInit(const uint16_t depth, const bool nonblocking)
 }
 
 RKCommand *RKCommandQueuePop(RKCommandQueue *queue) {
-    if (queue->count == 0) {
+    // The slot is free for another push right away, so the caller gets a copy, which lasts until the next pop of the same thread
+    static __thread RKCommand command;
+    pthread_mutex_lock(&queue->lock);
+    while (queue->count == 0) {
+        pthread_mutex_unlock(&queue->lock);
         if (queue->nonblocking) {
             return NULL;
-        } else {
-            do {
-                usleep(1000);
-            } while (queue->count == 0);
         }
+        usleep(1000);
+        pthread_mutex_lock(&queue->lock);
     }
-    RKCommand *command = &queue->buffer[queue->tail];
+    memcpy(&command, &queue->buffer[queue->tail], sizeof(RKCommand));
     queue->tail = RKNextModuloS(queue->tail, queue->depth);
-    pthread_mutex_lock(&queue->lock);
     queue->count--;
     queue->toc++;
     pthread_mutex_unlock(&queue->lock);
-    return command;
+    return &command;
 }
 
 int RKCommandQueuePush(RKCommandQueue *queue, RKCommand *command) {
+    pthread_mutex_lock(&queue->lock);
+    if (queue->count >= queue->depth) {
+        pthread_mutex_unlock(&queue->lock);
+        return RKResultTooBig;
+    }
     memcpy(&queue->buffer[queue->head], command, sizeof(RKCommand));
     queue->head = RKNextModuloS(queue->head, queue->depth);
-    pthread_mutex_lock(&queue->lock);
     queue->count++;
-    pthread_mutex_unlock(&queue->lock);
     queue->tic++;
+    pthread_mutex_unlock(&queue->lock);
     return RKResultSuccess;
 }
 
-- 
2.43.0


From 32eaa08b76e505c687b99198ba9188fbbfdef3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 38/54] fix: sending resumes after what was sent, reports
 failures and never goes on after a packet cut short

---
 source/RKNetwork.c | 30 ++++++++++++++++++----------
 source/RKServer.c  | 50 +++++++++++++++++++++++++++-------------------
 2 files changed, 49 insertions(+), 31 deletions(-)

diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..b97533c 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -22,6 +22,7 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
     ssize_t   grandTotalSentSize = 0;
     ssize_t   totalSentSize = 0;
     ssize_t   sentSize = 0;
+    ssize_t   result = 0;
 
     int       timeout_count = 0;
 
@@ -29,20 +30,23 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
 
     // Parse the input arguments until payload = NULL (last input)
     payload = va_arg(arg, void *);
-    while (payload != NULL) {
+    while (payload != NULL && result == 0) {
         payloadSize = va_arg(arg, ssize_t);
         // RKLog("RKNetworkSendPackets : payloadSize = %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        while (totalSentSize < payloadSize) {
+            if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
-                usleep(10000);
-            } else if (sentSize < 0) {
+                timeout_count = 0;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
                 RKLog("RKNetworkSendPackets Unable to send()\n");
-                return -RKResultIncompleteSend;
+                result = -RKResultIncompleteSend;
+                break;
+            } else if (timeout_count++ < RKNetworkTimeoutSeconds * 100) {
+                usleep(10000);
+            } else {
+                result = -RKResultTimeout;
+                break;
             }
         }
         grandTotalSentSize += totalSentSize;
@@ -52,8 +56,12 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
 
     va_end(arg);
 
-    if (timeout_count >= RKNetworkTimeoutSeconds / 10) {
-        return -RKResultTimeout;
+    if (result < 0) {
+        if (grandTotalSentSize > 0) {
+            // Nothing that follows a packet cut short can be understood
+            shutdown(sd, SHUT_WR);
+        }
+        return result;
     }
     return grandTotalSentSize;
 }
diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..d1fd105 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -743,6 +743,7 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     ssize_t   grandTotalSentSize = 0;
     ssize_t   totalSentSize = 0;
     ssize_t   sentSize = 0;
+    ssize_t   result = 0;
 
     int timeout_count = 0;
 
@@ -752,20 +753,22 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     // Parse the input arguments until payload = NULL (last input)
     payload = va_arg(arg, void *);
-    while (payload != NULL) {
+    while (payload != NULL && result == 0) {
         payloadSize = va_arg(arg, ssize_t);
         //printf("size %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        while (totalSentSize < payloadSize) {
+            if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
-            }
-            if (totalSentSize < payloadSize) {
+                timeout_count = 0;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+                result = -RKResultIncompleteSend;
+                break;
+            } else if (timeout_count++ < RKSocketTimeCountOf10ms) {
                 usleep(1000);
-            } else if (sentSize < 0) {
-                pthread_mutex_unlock(&O->lock);
-                return RKResultIncompleteSend;
+            } else {
+                result = -RKResultTimeout;
+                break;
             }
         }
         grandTotalSentSize += totalSentSize;
@@ -774,13 +777,17 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     va_end(arg);
 
-    pthread_mutex_unlock(&O->lock);
-
-    if (timeout_count >= RKSocketTimeCountOf10ms) {
-        return RKResultTimeout;
+    if (result < 0 && grandTotalSentSize > 0) {
+        // Nothing that follows a packet cut short can be understood
+        shutdown(O->sid, SHUT_WR);
+        if (O->state == RKOperatorStateActive) {
+            RKOperatorHangUp(O);
+        }
     }
 
-    return grandTotalSentSize;
+    pthread_mutex_unlock(&O->lock);
+
+    return result < 0 ? result : grandTotalSentSize;
 }
 
 ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
@@ -788,15 +795,18 @@ ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
 }
 
 ssize_t RKOperatorSendDelimitedString(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypePlainText;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    // A local copy since other threads may be sending through the same operator
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypePlainText;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendCommandResponse(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypeCommandResponse;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypeCommandResponse;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, (ssize_t)delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendBeacon(RKOperator *O) {
-- 
2.43.0


From c49daf49e286d756c7d48fe8ad2e32f2f924ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:13 +0000
Subject: [PATCH 39/54] fix: the client keeps the bytes it has read, delivers
 packets and lines whole, closes its socket and sees a stop request

---
 source/RKClient.c | 216 +++++++++++++++++-----------------------------
 1 file changed, 80 insertions(+), 136 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index af1d8d2..ad4639c 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -18,23 +18,56 @@ void *theClient(void *in);
 
 #pragma mark - Helper Functions
 
+// Length of the first line, including the new line character, or 0 if it is not there yet
+static int lineReady(const char *line, const int size) {
+    const char *c = memchr(line, '\n', size);
+    return c ? (int)(c - line) + 1 : (size >= RKMaximumPacketSize - 1 ? size : 0);
+}
+
+// Read exactly size bytes, however many pieces they come in. Returns 0 when they are all there.
+static int readBlock(RKClient *C, void *buf, const size_t size) {
+    ssize_t r;
+    size_t k = 0;
+    int waitCount = 0;
+    while (k < size) {
+        r = recv(C->sd, buf + k, size - k, MSG_DONTWAIT);
+        if (r > 0) {
+            k += r;
+            waitCount = 0;
+        } else if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
+            if (waitCount++ >= C->timeoutSeconds * 100 || C->state >= RKClientStateDisconnecting) {
+                RKLog("%s Error. Incomplete read   k = %zu / %zu\n", C->name, k, size);
+                return RKResultTimeout;
+            }
+            usleep(10000);
+        } else {
+            if (C->verbose > 1) {
+                RKLog("%s Error. r = %d   k = %zu / %zu   errno = %d (%s)\n", C->name, (int)r, k, size, errno, RKErrnoString(errno));
+            }
+            return RKResultIncompleteReceive;
+        }
+    }
+    return RKResultSuccess;
+}
+
 void *theClient(void *in) {
     RKClient *C = (RKClient *)in;
 
     int r;
     int k;
     int flags;
-    int readCount, timeoutCount;
+    int timeoutCount;
     struct timeval timeout;
     struct timeval previousBeaconTime = {0, 0};
     bool readOkay;
 
-    C->state = RKClientStateCreating;
-
-    FILE *fid = NULL;
+    // Text that has arrived but has not been passed on
+    char *line = (char *)malloc(RKMaximumPacketSize);
+    int lineSize = 0;
 
-    void *buf = (void *)malloc(RKMaximumPacketSize);
-    if (buf == NULL) {
+    // One more for the NULL character at the end of the payload
+    void *buf = (void *)malloc(RKMaximumPacketSize + 1);
+    if (buf == NULL || line == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
         return (void *)RKResultErrorCreatingOperatorRoutine;
     }
@@ -52,7 +85,11 @@ void *theClient(void *in) {
     // Here comes the infinite loop until being stopped
     while (C->state < RKClientStateDisconnecting) {
 
-        C->state = RKClientStateResolvingIP;
+        pthread_mutex_lock(&C->lock);
+        if (C->state < RKClientStateDisconnecting) {
+            C->state = RKClientStateResolvingIP;
+        }
+        pthread_mutex_unlock(&C->lock);
 
         // Resolve hostname to IP address
         if (C->verbose > 1) {
@@ -149,7 +186,6 @@ void *theClient(void *in) {
 
         // Server is almost ready to receive (could still be in EINPROGRESS, then select() -> 0)
         if (C->init) {
-            fid = NULL;
             FD_ZERO(&C->wfd);
             FD_ZERO(&C->efd);
             FD_SET(C->sd, &C->wfd);
@@ -195,6 +231,7 @@ void *theClient(void *in) {
         }
 
         // Actively receive
+        lineSize = 0;
         timeoutCount = 0;
         while (C->state < RKClientStateReconnecting) {
             FD_ZERO(&C->rfd);
@@ -204,7 +241,12 @@ void *theClient(void *in) {
             timeout.tv_sec = 0;
             timeout.tv_usec = 100000;
             readOkay = false;
-            r = select(C->sd + 1, &C->rfd, NULL, &C->efd, &timeout);
+            if (lineReady(line, lineSize)) {
+                FD_CLR(C->sd, &C->efd);
+                r = 1;
+            } else {
+                r = select(C->sd + 1, &C->rfd, NULL, &C->efd, &timeout);
+            }
             if (C->verbose > 3 || FD_ISSET(C->sd, &C->efd)) {
                 RKLog("%s select() returned r = %d   FD_ISSET(rfd) = %d   FD_ISSET(efd) = %d   errno = %d.\n",
                       C->name, r, FD_ISSET(C->sd, &C->rfd), FD_ISSET(C->sd, &C->efd), errno);
@@ -223,85 +265,13 @@ void *theClient(void *in) {
 
                     case RKNetworkMessageFormatConstantSize:
 
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, buf + k, C->blockLength - k)) > 0) {
-                                k += r;
-                                if (k >= C->blockLength) {
-                                    break;
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                if (C->verbose > 1) {
-                                    RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
-                                          C->name, r, k, errno, RKErrnoString(errno), readCount);
-                                }
-                                readCount = C->timeoutSeconds * 100;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                            if (C->verbose > 1) {
-                                RKLog("... errno = %d ...\n", errno);
-                            }
-                        }
-                        if (readCount >= C->timeoutSeconds * 100) {
-                            if (C->verbose > 1) {
-                                RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", C->name, readCount, errno);
-                            }
-                            break;
-                        }
-                        readOkay = true;
+                        readOkay = readBlock(C, buf, C->blockLength) == RKResultSuccess;
                         break;
 
                     case RKNetworkMessageFormatHeaderDefinedSize:
 
                         // The delimiter first
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
-                                if (r > 0) {
-                                    k += r;
-                                    if (k == sizeof(RKNetDelimiter)) {
-                                        break;
-                                    } else if (k > sizeof(RKNetDelimiter)) {
-                                        RKLog("%s Error. Should not read larger than sizeof(RKNetDelimiter) = %zu\n", C->name, sizeof(RKNetDelimiter));
-                                        break;
-                                    }
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                if (C->verbose > 1) {
-                                    RKLog("%s Error. RKMessageFormatFixedHeaderVariableBlock:1  r = %d  k = %d  errno = %d (%s)\n",
-                                          C->name, r, k, errno, RKErrnoString(errno));
-                                }
-                                readCount = C->timeoutSeconds * 10000;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                } else {
-                                    pthread_mutex_unlock(&C->lock);
-                                    break;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                        }
-                        if (k != sizeof(RKNetDelimiter) || readCount > C->timeoutSeconds * 100) {
-                            if (errno != ECONNREFUSED) {
-                                RKLog("%s Error. Incomplete read().   errno = %d (%s)\n", C->name, errno, RKErrnoString(errno));
-                            }
+                        if (readBlock(C, delimiter, sizeof(RKNetDelimiter)) != RKResultSuccess) {
                             break;
                         }
                         // If the delimiter specifies 0 payload, it could just be a beacon
@@ -318,68 +288,40 @@ void *theClient(void *in) {
                             break;
                         }
                         // Now the actual payload
-                        k = 0;
-                        readCount = 0;
-                        while (readCount++ < C->timeoutSeconds * 100) {
-                            if ((r = (int)read(C->sd, buf + k, C->netDelimiter.size - k)) > 0) {
-                                #ifdef DEBUG_RKCLIENT
-                                RKLog("%s read() -> %d / %d / %d    readCount = %d / %d\n",
-                                      C->name, r, C->netDelimiter.size - k,  C->netDelimiter.size, readCount, C->timeoutSeconds * 100);
-                                #endif
-                                if (r > 0) {
-                                    k += r;
-                                    if (k == C->netDelimiter.size) {
-                                        break;
-                                    } else if (k > C->netDelimiter.size) {
-                                        RKLog("%s Error. Should not read larger than specified size = %zu\n", C->name, C->netDelimiter.size);
-                                        break;
-                                    }
-                                } else {
-                                    usleep(10000);
-                                }
-                            } else if (errno != EAGAIN) {
-                                RKLog("%s Error. PCMessageFormatFixedHeaderVariableBlock:2  size=%d   r=%d  k=%d  errno=%d (%s)\n",
-                                      C->name, C->netDelimiter.size, r, k, errno, RKErrnoString(errno));
-                                readCount = C->timeoutSeconds * 1000;
-                                pthread_mutex_lock(&C->lock);
-                                if (C->state < RKClientStateDisconnecting) {
-                                    C->state = RKClientStateReconnecting;
-                                }
-                                pthread_mutex_unlock(&C->lock);
-                                break;
-                            } else {
-                                usleep(10000);
-                            }
-                        }
-                        #ifdef DEBUG_RKCLIENT
-                        RKLog("%s k = %d   r = %d   readCount = %d\n", C->name, k, r, readCount);
-                        for (int j = 0; j < 20; j++) {
-                            printf(" %02x/%c", (int)*(cbuf + j), *(cbuf + j));
-                        }
-                        printf("\n");
-                        #endif
-                        // Add a NULL character to the end of payload
-                        cbuf[k] = '\0';
-                        if (readCount >= C->timeoutSeconds * 1000) {
+                        if (readBlock(C, buf, C->netDelimiter.size) != RKResultSuccess) {
                             break;
                         }
+                        // Add a NULL character to the end of payload
+                        cbuf[C->netDelimiter.size] = '\0';
                         readOkay = true;
                         break;
 
                     case RKNetworkMessageFormatNewLine:
                     default:
                         
-                        if (fid == NULL) {
-                            fid = fdopen(C->sd, "r");
-                            if (fid < 0) {
-                                RKLog("%s Error. Unable to open a file descriptor for socket.\n", C->name);
-                                return (void *)-1;
+                        // Read some more unless there is a line already, then pass on the first line, or all when it is as long as it gets
+                        if (!lineReady(line, lineSize)) {
+                            r = (int)recv(C->sd, line + lineSize, RKMaximumPacketSize - 1 - lineSize, MSG_DONTWAIT);
+                            if (r > 0) {
+                                lineSize += r;
+                            } else if (r == 0 && lineSize > 0) {
+                                // The peer is gone, this is the end of the last line
+                                line[lineSize++] = '\n';
+                            } else if (r == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
+                                break;
                             }
                         }
-                        if (fgets(buf, RKMaximumPacketSize, fid) != NULL) {
-                            readOkay = true;
+                        readOkay = true;
+                        k = lineReady(line, lineSize);
+                        if (k == 0) {
+                            continue;
                         }
+                        memcpy(buf, line, k);
+                        cbuf[k] = '\0';
+                        lineSize -= k;
+                        memmove(line, line + k, lineSize);
                         break;
+
                 } // switch (C->format) ...
 
                 if (readOkay == false) {
@@ -391,8 +333,6 @@ void *theClient(void *in) {
                         C->state = RKClientStateReconnecting;
                     }
                     pthread_mutex_unlock(&C->lock);
-                    close(C->sd);
-                    fid = NULL;
                     continue;
                 } else {
                     pthread_mutex_lock(&C->lock);
@@ -445,6 +385,8 @@ void *theClient(void *in) {
             } // if (r == 0) ...
         }
 
+        close(C->sd);
+
         // Wait a while before trying to reconnect
         k = 31;
         while (k-- > 1 && C->state < RKClientStateDisconnecting) {
@@ -455,6 +397,7 @@ void *theClient(void *in) {
         };
     } // Here comes ... will jump out if C->state >= RKClientStateDisconnecting
     free(buf);
+    free(line);
 
     C->userPayload = NULL;
     C->state = RKClientStateDisconnected;
@@ -553,6 +496,7 @@ void RKClientSetCloseHandler(RKClient *C, int (*routine)(RKClient *)) {
 void RKClientStart(RKClient *C, const bool waitForConnection) {
     pthread_mutex_init(&C->lock, NULL);
     pthread_attr_init(&C->threadAttributes);
+    C->state = RKClientStateCreating;
     if (pthread_create(&C->threadId, &C->threadAttributes, theClient, C)) {
         RKLog("Error. Unable to launch a socket client.\n");
         return;
@@ -570,7 +514,7 @@ void RKClientStart(RKClient *C, const bool waitForConnection) {
 }
 
 void RKClientStop(RKClient *C) {
-    if (C->state > RKClientStateCreating && C->state < RKClientStateDisconnecting) {
+    if (C->state >= RKClientStateCreating && C->state < RKClientStateDisconnecting) {
         RKLog("%s Disconnecting ...\n", C->name);
         pthread_mutex_lock(&C->lock);
         C->state = RKClientStateDisconnecting;
-- 
2.43.0


From 63eb38ae218938213c4b821f22c114e86a3dee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:47 +0000
Subject: [PATCH 40/54] fix: the server takes every command once, waits for
 room, finishes them before it lets go of a client, and ends its operators
 when stopped

---
 source/RKServer.c | 106 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 30 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index d1fd105..fbb5743 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -31,7 +31,7 @@ void *RKServerRoutine(void *in) {
     M->state = RKServerStateOpening;
 
     // Create the socket
-    if ((M->sd = socket(AF_INET, SOCK_STREAM, 0)) == 0) {
+    if ((M->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
         RKLog("%s failed at socket().\n", M->name);
         M->state = RKServerStateNull;
         return NULL;
@@ -49,6 +49,7 @@ void *RKServerRoutine(void *in) {
     ii = 1;
     if (setsockopt(M->sd, SOL_SOCKET, SO_REUSEADDR, &ii, sizeof(ii)) == -1) {
         RKLog("%s Error. Failed at setsockopt().\n", M->name);
+        close(M->sd);
         M->state = RKServerStateNull;
         return NULL;
     }
@@ -56,14 +57,15 @@ void *RKServerRoutine(void *in) {
     // Bind
     if (bind(M->sd, (struct sockaddr *)&sa, sizeof(sa)) < 0) {
         RKLog("%s Error. Failed at bind().\n", M->name);
-        M->state = RKServerStateNull;
         close(M->sd);
+        M->state = RKServerStateNull;
         return NULL;
     }
 
     // Listen
     if (listen(M->sd, M->maxClient + 1) < 0) {
         RKLog("%s Error. Failed at listen().\n", M->name);
+        close(M->sd);
         M->state = RKServerStateNull;
         return NULL;
     }
@@ -113,7 +115,11 @@ void *RKServerRoutine(void *in) {
                 close(sid);
             } else {
                 RKOperator *O = RKOperatorCreate(M, sid, inet_ntoa(sa.sin_addr));
-                M->operators[O->iid] = O;
+                if (O == NULL) {
+                    close(sid);
+                } else {
+                    M->operators[O->iid] = O;
+                }
             }
         } else if (ii == 0) {
             // This isn't really an error, just mean no one is connecting & timeout...
@@ -136,6 +142,15 @@ void *RKServerRoutine(void *in) {
         }
     } // while (M->state == RKServerStateActive) ...
 
+    // All operators finish before this server does
+    M->state = RKServerStateClosing;
+    for (k = 0; k < M->maxClient; k++) {
+        if (M->busy[k]) {
+            RKOperatorFree(M->operators[k]);
+        }
+    }
+    close(M->sd);
+
     if (M->verbose > 1) {
         RKLog("%s Returning ...\n", M->name);
     }
@@ -146,14 +161,40 @@ void *RKServerRoutine(void *in) {
 }
 
 
+// Take what is there of a command line but nothing beyond its end. Returns 1 when the
+// line is complete, 0 when there is more to come, -1 when the client is gone.
+static int readCommand(RKOperator *O, char *str, int *length) {
+    const int k = *length;
+    char *e;
+    ssize_t r = recv(O->sid, str + k, RKMaximumCommandLength - 2 - k, MSG_PEEK | MSG_DONTWAIT);
+    if (r > 0) {
+        if ((e = (char *)memchr(str + k, '\n', r)) != NULL) {
+            r = e - (str + k) + 1;
+        }
+        r = recv(O->sid, str + k, r, MSG_DONTWAIT);
+    }
+    if (r > 0) {
+        *length = k + (int)r;
+        str[*length] = '\0';
+        return str[*length - 1] == '\n' || *length == RKMaximumCommandLength - 2;
+    } else if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
+        str[k] = '\0';
+        return 0;
+    }
+    str[k] = '\0';
+    return -1;
+}
+
+
 void *RKOperatorRoutine(void *in) {
 
     RKOperator      *O = (RKOperator *)in;
     RKServer        *M = O->M;
 
-    int             r;
+    int             k, r;
+    int             length = 0;
+    bool            terminate = false;
 
-    FILE            *fp;
     fd_set          rfd;
     fd_set          wfd;
     fd_set          efd;
@@ -171,6 +212,8 @@ void *RKOperatorRoutine(void *in) {
 
     if (pthread_create(&O->tidExecute, NULL, RKOperatorCommandRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorCommandRoutine().\n", M->name);
+        pthread_mutex_destroy(&O->lock);
+        O->state = RKOperatorStateHungUp;
         return (void *)RKResultErrorCreatingOperatorCommandRoutine;
     }
 
@@ -185,13 +228,6 @@ void *RKOperatorRoutine(void *in) {
     gettimeofday(&latestReadTime, NULL);
     gettimeofday(&latestWriteTime, NULL);
 
-    // Get a file descriptor for get line
-    fp = fdopen(O->sid, "r");
-    if (fp == NULL) {
-        RKLog("%s unable to get a file descriptor fro socket descriptor.\n", M->name);
-        return (void *)RKResultSDToFDError;
-    }
-
     // Run loop for the read/write
     while (M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
         //
@@ -226,9 +262,7 @@ void *RKOperatorRoutine(void *in) {
                 if (timercmp(&timeout, &latestWriteTime, >=)) {
                     // Dismiss with a terminate function
                     RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
-                    if (M->t != NULL) {
-                        M->t(O);
-                    }
+                    terminate = true;
                     break;
                 }
             }
@@ -236,6 +270,13 @@ void *RKOperatorRoutine(void *in) {
         //
         //  Command queue
         //
+        k = O->commandIndexWrite == RKServerBufferDepth - 1 ? 0 : O->commandIndexWrite + 1;
+        if (k == O->commandIndexRead) {
+            // No room for another command, leave it in the socket for now
+            usleep(1000);
+            gettimeofday(&latestReadTime, NULL);
+            continue;
+        }
         FD_ZERO(&rfd);
         FD_ZERO(&efd);
         FD_SET(O->sid, &rfd);
@@ -252,18 +293,22 @@ void *RKOperatorRoutine(void *in) {
                 // Ready to read (command)
                 gettimeofday(&latestReadTime, NULL);
                 str = O->commands[O->commandIndexWrite];
-                if (fgets(str, RKMaximumCommandLength - 1, fp) == NULL) {
-                    // When the socket has been disconnected by the client
-                    O->cmd = NULL;
+                r = readCommand(O, str, &length);
+                if (r > 0 || (r < 0 && length > 0)) {
+                    RKStripTail(str);
+                    memset(O->commands[k], 0, RKMaximumCommandLength);
+                    O->commandIndexWrite = k;
+                    length = 0;
+                }
+                if (r < 0) {
+                    // When the socket has been disconnected by the client, finish what it has asked for
                     RKLog("%s %s Client disconnected.\n", M->name, O->name);
-                    if (M->t != NULL) {
-                        M->t(O);
+                    while (O->commandIndexRead != O->commandIndexWrite && M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
+                        usleep(10000);
                     }
+                    terminate = true;
                     break;
                 }
-                RKStripTail(str);
-                O->commandIndexWrite = O->commandIndexWrite == RKServerBufferDepth - 1 ? 0 : O->commandIndexWrite + 1;
-                memset(O->commands[O->commandIndexWrite], 0, RKMaximumCommandLength);
             }
         } else if (r < 0) {
             // Errors
@@ -276,9 +321,7 @@ void *RKOperatorRoutine(void *in) {
             if (timercmp(&timeout, &latestReadTime, >=)) {
                 // Dismiss with a terminate function
                 RKLog("%s %s Encountered a timeout (%d seconds).\n", M->name, O->name, M->timeoutSeconds);
-                if (M->t != NULL) {
-                    M->t(O);
-                }
+                terminate = true;
                 break;
             }
         }
@@ -286,17 +329,18 @@ void *RKOperatorRoutine(void *in) {
 
     // If the state was changed deliberately by RKOperatorHangUp()
     if (O->state == RKOperatorStateClosing) {
-        if (M->t != NULL) {
-            M->t(O);
-        }
+        terminate = true;
     }
 
     // Set the state if all the 'break' conditions signals the RKOperatorCommandRoutine to quit as well.
     O->state = RKOperatorStateClosing;
 
     pthread_join(O->tidExecute, NULL);
+    O->cmd = NULL;
+    if (terminate && M->t != NULL) {
+        M->t(O);
+    }
     pthread_mutex_destroy(&O->lock);
-    fclose(fp);
 
     O->state = RKOperatorStateHungUp;
 
@@ -383,7 +427,9 @@ RKOperator *RKOperatorCreate(RKServer *M, int sid, const char *ip) {
 
     if (pthread_create(&O->tidRead, NULL, RKOperatorRoutine, O)) {
         RKLog("%s Error. Failed to create RKOperatorRoutine().\n", M->name);
+        M->busy[k] = false;
         pthread_mutex_unlock(&M->lock);
+        free(O);
         return NULL;
     }
 
-- 
2.43.0


From ba51468303f4ca3eb47dbbe73e28d47591ea537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 41/54] fix: a user payload is received whole or reported as
 failed

---
 source/RKServer.c | 163 ++++++++++++----------------------------------
 1 file changed, 43 insertions(+), 120 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index fbb5743..ec4ee67 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -622,155 +622,78 @@ void RKServerStop(RKServer *M) {
 
 #pragma mark - Miscellaneous functions
 
-ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessageFormat format) {
-    int k = 0;
-    fd_set rfd;
-    fd_set efd;
-    ssize_t r = -1;
-    int readCount;
-    bool readOkay = false;
-
-    FD_ZERO(&rfd);
-    FD_ZERO(&efd);
-    FD_SET(O->sid, &rfd);
-    FD_SET(O->sid, &efd);
-
-    RKNetDelimiter *delimiter = &O->delimRx;
+// Read exactly size bytes, however many pieces they come in. Returns 0 when they are all there.
+static int readBlock(RKOperator *O, void *buf, const size_t size) {
+    ssize_t r;
+    size_t k = 0;
+    int waitCount = 0;
+    RKServer *M = O->M;
+    while (k < size) {
+        r = recv(O->sid, buf + k, size - k, MSG_DONTWAIT);
+        if (r > 0) {
+            k += r;
+            waitCount = 0;
+        } else if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
+            if (waitCount++ >= O->timeoutSeconds * 100 || M->state != RKServerStateActive) {
+                RKLog("%s %s Error. Incomplete read   k = %zu / %zu\n", M->name, O->name, k, size);
+                return RKResultTimeout;
+            }
+            usleep(10000);
+        } else {
+            RKLog("%s %s Error. Incomplete read   r = %d   k = %zu / %zu   errno = %d (%s)\n",
+                  M->name, O->name, (int)r, k, size, errno, RKErrnoString(errno));
+            return RKResultIncompleteReceive;
+        }
+    }
+    return RKResultSuccess;
+}
 
+ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessageFormat format) {
     RKServer *M = O->M;
+    RKNetDelimiter *delimiter = &O->delimRx;
 
+    ssize_t k = 0;
     const int blockLength = 4;
 
     switch (format) {
 
         case RKNetworkMessageFormatHeaderDefinedSize:
-            //RKNetworkread
-            k = 0;
-            readCount = 0;
-            while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
-                    if (r) {
-                        k += r;
-                        if (k == sizeof(RKNetDelimiter)) {
-                            break;
-                        } else if (k > sizeof(RKNetDelimiter)) {
-                            RKLog("%s %s Error. Should not read larger than sizeof(RKNetDelimiter) = %zu\n", M->name, O->name, sizeof(RKNetDelimiter));
-                            break;
-                        }
-                    } else {
-                        usleep(10000);
-                    }
-                } else if (errno != EAGAIN) {
-                    RKLog("%s %s Error. RKMessageFormatFixedHeaderVariableBlock   r = %d   k = %d   errno = %d (%s)\n",
-                              M->name, O->name, r, k, errno, RKErrnoString(errno));
-                    break;
-                } else {
-                    usleep(10000);
-                }
-            }
-            if (k != sizeof(RKNetDelimiter) || readCount > O->timeoutSeconds * 100) {
-                if (errno != ECONNREFUSED) {
-                    RKLog("%s %s Error. Incomplete read().   errno = %d (%s)\n", M->name, O->name, errno, RKErrnoString(errno));
-                }
-                break;
+
+            // The delimiter first
+            if (readBlock(O, delimiter, sizeof(RKNetDelimiter)) != RKResultSuccess) {
+                return -1;
             }
-            //RKLog("Warning. delimiter -> %d %d %d %d\n", delimiter->type, delimiter->subtype, delimiter->size, delimiter->decodedSize);
             // If the delimiter specifies 0 payload, it could just be a beacon
             if (delimiter->size == 0) {
                 if (M->verbose > 1) {
                     RKLog("%s netDelimiter.size = 0\n", M->name);
                 }
-                readOkay = true;
-                break;
+                return 0;
             } else if (delimiter->size > RKMaximumPacketSize) {
                 RKLog("%s Error. Payload size = %s (type %d) is more than what I can handle.\n",
                       M->name, RKIntegerToCommaStyleString(delimiter->size), delimiter->type);
-                readOkay = false;
-                break;
+                return -1;
             }
             // Now the actual payload
-            k = 0;
-            readCount = 0;
-            while (readCount++ < M->timeoutSeconds * 100) {
-                if ((r = (int)read(O->sid, buffer + k, delimiter->size - k)) > 0) {
-                    k += r;
-                    if (k >= delimiter->size) {
-                        break;
-                    } else {
-                        usleep(10000);
-                    }
-                } else if (errno != EAGAIN) {
-                    if (M->verbose > 1) {
-                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
-                              O->name, r, k, errno, RKErrnoString(errno), readCount);
-                    }
-                    readCount = O->timeoutSeconds * 10000;
-                    break;
-                } else {
-                    usleep(10000);
-                }
-                if (M->verbose > 1) {
-                    RKLog("... errno = %d ...\n", errno);
-                }
-            }
-            if (readCount >= O->timeoutSeconds * 100) {
-                if (M->verbose > 1) {
-                    RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
-                }
-                break;
-            }
-            if (k > 0 && k < RKMaximumPacketSize) {
-                *((char *)buffer + k) = '\0';
-            }
-            readOkay = true;
+            k = delimiter->size;
             break;
 
         case RKNetworkMessageFormatConstantSize:
-            k = 0;
-            readCount = 0;
-            while (readCount++ < M->timeoutSeconds * 100) {
-                if ((r = (int)read(O->sid, buffer + k, blockLength - k)) > 0) {
-                    k += r;
-                    if (k >= blockLength) {
-                        break;
-                    } else {
-                        usleep(10000);
-                    }
-                } else if (errno != EAGAIN) {
-                    if (M->verbose > 1) {
-                        RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
-                              O->name, r, k, errno, RKErrnoString(errno), readCount);
-                    }
-                    readCount = O->timeoutSeconds * 10000;
-                    break;
-                } else {
-                    usleep(10000);
-                }
-                if (M->verbose > 1) {
-                    RKLog("... errno = %d ...\n", errno);
-                }
-            }
-            if (readCount >= O->timeoutSeconds * 100) {
-                if (M->verbose > 1) {
-                    RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
-                }
-                break;
-            }
-            if (k > 0 && k < RKMaximumPacketSize) {
-                *((char *)buffer + k) = '\0';
-            }
-            readOkay = true;
+            k = blockLength;
             break;
 
         case RKNetworkMessageFormatNewLine:
         default:
             // Nothing yet
-            break;
+            return -1;
     }
-    if (readOkay) {
-        return k;
+    if (readBlock(O, buffer, k) != RKResultSuccess) {
+        return -1;
     }
-    return -1;
+    if (k < RKMaximumPacketSize) {
+        *((char *)buffer + k) = '\0';
+    }
+    return k;
 }
 
 // In counts of 10ms, should be plenty, in-transit buffer should be able to hold it
-- 
2.43.0


From 2f492e624aa85cdca872e0b40add029318be1d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 42/54] fix: pieces of a line count as activity

---
 source/RKClient.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKClient.c b/source/RKClient.c
index ad4639c..002dbdf 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -304,6 +304,7 @@ void *theClient(void *in) {
                             r = (int)recv(C->sd, line + lineSize, RKMaximumPacketSize - 1 - lineSize, MSG_DONTWAIT);
                             if (r > 0) {
                                 lineSize += r;
+                                timeoutCount = 0;
                             } else if (r == 0 && lineSize > 0) {
                                 // The peer is gone, this is the end of the last line
                                 line[lineSize++] = '\n';
-- 
2.43.0


From 60aac58d13d65f77bffc2cf9e4e42746ab7258a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 43/54] fix: the web socket takes frames however they come,
 unmasks and answers them whole, and does not lose or mangle what is sent

---
 headers/RadarKit/RKWebSocket.h |   4 +-
 source/RKWebSocket.c           | 360 +++++++++++++++++++--------------
 2 files changed, 212 insertions(+), 152 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index fcc9c21..c749be8 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -24,6 +24,7 @@
 #include "_rfc_6455.h"
 
 #define RKWebSocketFrameSize                     (1024 * 1024)
+#define RKWebSocketPayloadSize                   (RKWebSocketFrameSize - 14)
 #define RKWebSocketPayloadDepth                  1000
 #define RKWebSocketTimeoutDeltaMicroseconds      10000
 #define RKWebSocketTimeoutThresholdSeconds       10.0
@@ -80,7 +81,8 @@ struct rk_websocket {
     uint32_t                 timeoutCount;                                     // Internal variable
     uint64_t                 tic;
 
-    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame
+    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store the frames being received
+    uint8_t                  txFrame[RKWebSocketFrameSize];                    // A local buffer to store the frame to send
 };
 
 RKWebSocket *RKWebSocketInit(const char *, const char *);
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..e272763 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -11,9 +11,13 @@
 #pragma mark - Static Methods
 
 static char *RKGetHandshakeArgument(const char *buf, const char *key) {
-    static char argument[80] = {0};
+    static char argument[64] = {0};
     char *b, *e;
+    // The key must be at the beginning of a line
     b = strstr(buf, key);
+    while (b != NULL && (b == buf || *(b - 1) != '\n' || *(b + strlen(key)) != ':')) {
+        b = strstr(b + 1, key);
+    }
     if (b == NULL) {
         argument[0] = '\0';
         return argument;
@@ -23,7 +27,10 @@ static char *RKGetHandshakeArgument(const char *buf, const char *key) {
         b++;
     }
     e = strstr(b, RKEOL);
-    size_t l = (size_t)(e - b);
+    size_t l = e == NULL ? strlen(b) : (size_t)(e - b);
+    if (l > sizeof(argument) - 1) {
+        l = sizeof(argument) - 1;
+    }
     memcpy(argument, b, l);
     argument[l] = '\0';
     return argument;
@@ -37,12 +44,25 @@ static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
     return (int)read(W->sd,W->frame + origin, size);
 }
 
-static int RKSocketWrite(RKWebSocket *W, size_t size) {
+static int RKSocketWrite(RKWebSocket *W, const void *buf, size_t size) {
+    int r;
+    size_t k = 0;
     W->tic++;
-    if (W->useSSL) {
-        return SSL_write(W->ssl, W->frame, (int)size);
+    while (k < size) {
+        if (W->useSSL) {
+            r = SSL_write(W->ssl, buf + k, (int)(size - k));
+        } else {
+            r = (int)write(W->sd, buf + k, size - k);
+            if (r < 0 && errno == EINTR) {
+                continue;
+            }
+        }
+        if (r <= 0) {
+            return r;
+        }
+        k += r;
     }
-    return (int)write(W->sd, W->frame, size);
+    return (int)k;
 }
 
 static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void *src, size_t size) {
@@ -53,22 +73,9 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     h->mask = true;
     h->opcode = code;
     char *payload = buf + sizeof(ws_frame_header);
-    if (size == 0) {
-        if (src == NULL) {
-            r = 0;
-        } else {
-            r = strlen((char *)src);
-        }
-    } else {
-        r = size;
-    }
+    r = size;
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
-        }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
     } else if (r > 125) {
@@ -78,20 +85,19 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     } else {
         h->len = r;
     }
-    if (src) {
-        if (h->mask) {
-            ws_mask_key key = {.u32 = rand()};
-            *((uint32_t *)payload) = key.u32;
-            payload += 4;
-            memcpy(payload, src, r);
-            for (int i = 0; i < r; i++) {
-                payload[i] ^= key.code[i % 4];
-            }
-        } else {
-            // Should not happen in this module
+    if (h->mask) {
+        ws_mask_key key = {.u32 = rand()};
+        *((uint32_t *)payload) = key.u32;
+        payload += 4;
+        if (r) {
             memcpy(payload, src, r);
         }
-        payload[r] = '\0';
+        for (size_t i = 0; i < r; i++) {
+            payload[i] ^= key.code[i % 4];
+        }
+    } else if (r) {
+        // Should not happen in this module
+        memcpy(payload, src, r);
     }
     r = (size_t)((void *)payload - buf) + r;
     return r;
@@ -110,10 +116,10 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     } else {
         r = h->len;
     }
-    payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
-        for (int i = 0; i < h->len; i++) {
+        payload += 4;
+        for (size_t i = 0; i < r; i++) {
             payload[i] ^= key.code[i % 4];
         }
     }
@@ -121,25 +127,32 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     return r;
 }
 
-static size_t RKWebSocketFrameGetTargetSize(void *buf) {
+// The size of the frame at the beginning of a buffer, 0 if there is not enough to tell
+static size_t RKWebSocketFrameGetTargetSize(void *buf, size_t available) {
     size_t r = sizeof(ws_frame_header);
+    uint64_t size;
     void *xlen = buf + sizeof(ws_frame_header);
     ws_frame_header *h = (ws_frame_header *)buf;
+    if (available < r) {
+        return 0;
+    }
+    r += (h->len == 127 ? 8 : (h->len == 126 ? 2 : 0)) + (h->mask ? 4 : 0);
+    if (available < r) {
+        return 0;
+    }
     if (h->len == 127) {
-        r += 8 + ntohll(*(uint64_t *)xlen);
+        size = ntohll(*(uint64_t *)xlen);
     } else if (h->len == 126) {
-        r += 2 + ntohs(*(uint16_t *)xlen);
+        size = ntohs(*(uint16_t *)xlen);
     } else {
-        r += h->len;
+        size = h->len;
     }
-    return r;
+    return size > RKWebSocketFrameSize ? SIZE_MAX : r + (size_t)size;
 }
 
-static int RKWebSocketPingPong(RKWebSocket *W, const bool ping, const char *message, const int len) {
-    size_t size = RKWebSocketFrameEncode(W->frame,
-        ping ? RFC6455_OPCODE_PING : RFC6455_OPCODE_PONG,
-        message, message == NULL ? 0 : (len == 0 ? strlen(message) : len));
-    int r = RKSocketWrite(W, size);
+static int RKWebSocketSendControl(RKWebSocket *W, RFC6455_OPCODE code, const void *message, const size_t len) {
+    size_t size = RKWebSocketFrameEncode(W->txFrame, code, message, len);
+    int r = RKSocketWrite(W, W->txFrame, size);
     if (r < 0) {
         fprintf(stderr, "Error. Unable to write. r = %d\n", r);
     } else if (W->verbose > 2) {
@@ -148,16 +161,15 @@ static int RKWebSocketPingPong(RKWebSocket *W, const bool ping, const char *mess
     return r;
 }
 
-static int RKWebSocketPing(RKWebSocket *W, const char *message, const int len) {
-    return RKWebSocketPingPong(W, true, message, len);
+static int RKWebSocketPing(RKWebSocket *W, const void *message, const size_t len) {
+    return RKWebSocketSendControl(W, RFC6455_OPCODE_PING, message, len);
 }
 
-static int RKWebSocketPong(RKWebSocket *W, const char *message, const int len) {
-    return RKWebSocketPingPong(W, false, message, len);
+static int RKWebSocketPong(RKWebSocket *W, const void *message, const size_t len) {
+    return RKWebSocketSendControl(W, RFC6455_OPCODE_PONG, message, len);
 }
 
-static void RKShowWebsocketFrameHeader(RKWebSocket *W) {
-    uint8_t *c = (uint8_t *)W->frame;
+static void RKShowWebsocketFrameHeader(uint8_t *c) {
     ws_frame_header *h = (ws_frame_header *)c;
     if (h->mask) {
         printf("%02x %02x   %02x %02x %02x %02x    %02x %02x %02x %02x %02x %02x %02x %02x ..."
@@ -175,8 +187,12 @@ static void RKShowWebsocketFrameHeader(RKWebSocket *W) {
     }
 }
 
+// Returns the number of bytes that came behind the handshake, which are moved to the beginning of W->frame, or -1
 static int RKWebSocketConnect(RKWebSocket *W) {
     int r;
+    int total = 0;
+    fd_set rfd;
+    struct timeval timeout;
     char *c;
     struct hostent *entry = gethostbyname(W->host);
     if (entry == NULL) {
@@ -191,8 +207,9 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
-    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) == 0) {
+    if ((W->sd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
         RKLog("%s Error. Failed opening socket\n", W->name);
+        W->sd = 0;
         return -1;
     }
 
@@ -249,16 +266,34 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         printf("%s", buf);
     }
 
-    RKSocketWrite(W, strlen(buf));
-    do {
-        r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
-    } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
-    if (r < 0) {
+    r = RKSocketWrite(W, buf, strlen(buf));
+    buf[0] = '\0';
+    while (r > 0 && (c = strstr(buf, "\r\n\r\n")) == NULL) {
+        FD_ZERO(&rfd);
+        FD_SET(W->sd, &rfd);
+        timeout.tv_sec = 0;
+        timeout.tv_usec = W->timeoutDeltaMicroseconds;
+        r = select(W->sd + 1, &rfd, NULL, NULL, &timeout);
+        if (r > 0) {
+            r = RKSocketRead(W, total, RKWebSocketFrameSize - 1 - total);
+            if (r > 0) {
+                total += r;
+                buf[total] = '\0';
+            }
+        } else if (r == 0 && W->wantActive) {
+            r = 1;
+        }
+    }
+    if (r <= 0) {
         fprintf(stderr, "Error during handshake.\n");
         fprintf(stderr, "%s", (char *)buf);
         return -1;
     }
-    buf[r] = '\0';
+    // What follows is no longer a part of the handshake
+    c += 4;
+    total -= (int)(c - buf);
+    r = *c;
+    *c = '\0';
     if (W->verbose > 1) {
         printf("%s", buf);
     }
@@ -288,8 +323,13 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
+    *c = (char)r;
+    memmove(buf, c, total);
+
     // Discard all pending deliveries
+    pthread_mutex_lock(&W->lock);
     W->payloadTail = W->payloadHead;
+    pthread_mutex_unlock(&W->lock);
 
     // Call onOpen here for client to handle additional tasks after the connection is established.
     if (W->onOpen) {
@@ -298,7 +338,88 @@ static int RKWebSocketConnect(RKWebSocket *W) {
 
     W->connected = true;
 
-    return 0;
+    return total;
+}
+
+// Take what is in a frame from the peer
+static void RKWebSocketHandleFrame(RKWebSocket *W, uint8_t *frame, const size_t total) {
+    int i;
+    char show[256];
+    void *anchor = NULL;
+    ws_frame_header *h = (ws_frame_header *)frame;
+    const size_t size = RKWebSocketFrameDecode(&anchor, frame);
+    // Terminate the payload here, put back what follows when we are done
+    const uint8_t next = frame[total];
+    frame[total] = '\0';
+    if (!h->fin) {
+        fprintf(stderr, "I need upgrade!\n"
+                        "I need upgrade!\n"
+                        "I need upgrade!\n"
+                        "I cannot handle frames with h->fin = 0.\n");
+    }
+    if (W->verbose > 1) {
+        if (W->verbose > 2) {
+            printf("%2zu read  ", total); RKShowWebsocketFrameHeader(frame);
+        }
+        if (size != 4 && size <= 32 && h->opcode == RFC6455_OPCODE_PING) {
+            RKBytesInHex(show, anchor, size);
+        } else if (size > 32) {
+            RKHeadTailBytesInHex(show, anchor, size);
+        } else {
+            memcpy(show, anchor, size);
+            show[size] = '\0';
+        }
+        RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
+              OPCODE_STRING(h->opcode),
+              rkGlobalParameters.showColor ? RKOrangeColor : "",
+              show,
+              rkGlobalParameters.showColor ? RKNoColor : "",
+              size);
+    }
+    if (h->opcode == RFC6455_OPCODE_PING) {
+        i = RKWebSocketPong(W, anchor, size);
+        if (W->verbose > 1) {
+            RKLog("%s C-PONG: %s%s%s (%zu)\n", W->name,
+                  rkGlobalParameters.showColor ? RKLimeColor : "",
+                  show,
+                  rkGlobalParameters.showColor ? RKNoColor : "",
+                  size);
+            if (W->verbose > 2) {
+                printf("%2d sent  ", i); RKShowWebsocketFrameHeader(W->txFrame);
+            }
+        }
+        if (i <= 0) {
+            W->connected = false;
+        }
+    } else if (h->opcode == RFC6455_OPCODE_CLOSE) {
+        RKWebSocketSendControl(W, RFC6455_OPCODE_CLOSE, anchor, size);
+        W->connected = false;
+    } else if (h->opcode == RFC6455_OPCODE_TEXT || h->opcode == RFC6455_OPCODE_BINARY) {
+        if (W->onMessage) {
+            W->onMessage(W, anchor, size);
+        }
+    }
+    W->timeoutCount = 0;
+    frame[total] = next;
+}
+
+// Take the frames that are complete. Returns the number of bytes that remain at the beginning of W->frame
+static size_t RKWebSocketHandleFrames(RKWebSocket *W, const size_t total) {
+    size_t k = 0, size;
+    while (W->connected && (size = RKWebSocketFrameGetTargetSize(W->frame + k, total - k)) > 0) {
+        if (size >= RKWebSocketFrameSize) {
+            RKLog("%s Error. Unable to take a frame of more than %d bytes.\n", W->name, RKWebSocketFrameSize - 1);
+            W->connected = false;
+            break;
+        }
+        if (size > total - k) {
+            break;
+        }
+        RKWebSocketHandleFrame(W, W->frame + k, size);
+        k += size;
+    }
+    memmove(W->frame, W->frame + k, total - k);
+    return total - k;
 }
 
 #pragma mark - Internal run loops
@@ -307,13 +428,11 @@ void *transporter(void *in) {
     RKWebSocket *W = (RKWebSocket *)in;
 
     int i, r;
-    void *anchor = NULL;
-    size_t size, targetFrameSize = 0;
-    ws_frame_header *h = (ws_frame_header *)W->frame;
+    size_t size;
+    bool opened;
     char words[][5] = {"love", "hope", "cool", "cute", "sexy", "nice", "calm", "wish"};
     char uword[5] = "xxxx";
     char message[256];
-    char show[256];
 
     fd_set rfd;
     fd_set wfd;
@@ -321,15 +440,16 @@ void *transporter(void *in) {
     struct timeval timeout;
     time_t s1, s0;
 
-    uint32_t origin = 0;
-    uint32_t total = 0;
+    size_t total = 0;
     uint32_t *p32;
 
     W->tic = 1;
 
     while (W->wantActive) {
 
-        RKWebSocketConnect(W);
+        r = RKWebSocketConnect(W);
+        opened = r >= 0;
+        total = opened ? RKWebSocketHandleFrames(W, r) : 0;
 
         // Run loop for read and write
         while (W->wantActive && W->connected) {
@@ -351,6 +471,7 @@ void *transporter(void *in) {
                     if (W->verbose) {
                         fprintf(stderr, "Error. Exceptions during write cycle.\n");
                     }
+                    W->connected = false;
                     break;
                 } else if (FD_ISSET(W->sd, &wfd)) {
                     // Ready to write. Keep sending the payloads until the tail catches up
@@ -366,8 +487,9 @@ void *transporter(void *in) {
                             printf("RKWebSocket.transporter: WRITE \033[38;5;154m%s\033[m (%zu)\n",
                                    message, payload->size);
                         }
-                        size = RKWebSocketFrameEncode(W->frame, RFC6455_OPCODE_BINARY, payload->source, payload->size);
-                        r = RKSocketWrite(W, size);
+                        size = payload->size == 0 && payload->source ? strlen((char *)payload->source) : payload->size;
+                        size = RKWebSocketFrameEncode(W->txFrame, RFC6455_OPCODE_BINARY, payload->source, size);
+                        r = RKSocketWrite(W, W->txFrame, size);
                         if (r < 0) {
                             if (W->verbose) {
                                 RKLog("%s Error. RKSocketWrite() = %d\n", W->name, r);
@@ -380,6 +502,9 @@ void *transporter(void *in) {
                         }
                         W->payloadTail = tail;
                     }
+                    if (!W->connected) {
+                        break;
+                    }
                 } else {
                     // This shall not reach
                     printf("... w\n");
@@ -389,6 +514,7 @@ void *transporter(void *in) {
                 if (W->verbose) {
                     RKLog("%s Error. select() = %d during write cycle\n", W->name, r);
                 }
+                W->connected = false;
                 break;
             }
             //
@@ -396,7 +522,6 @@ void *transporter(void *in) {
             //
             //  wait up to tv_usec if there is nothing left to send
             //
-            size = 0;
             FD_ZERO(&rfd);
             FD_ZERO(&efd);
             FD_SET(W->sd, &rfd);
@@ -414,52 +539,15 @@ void *transporter(void *in) {
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
                     // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
+                    r = RKSocketRead(W, (uint32_t)total, RKWebSocketFrameSize - 1 - total);
                     if (r <= 0) {
                         if (W->verbose) {
-                            fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
+                            fprintf(stderr, "Error. RKSocketRead() = %d   total = %zu\n", r, total);
                         }
                         W->connected = false;
                         break;
                     }
-                    if (origin == 0) {
-                        targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame);
-                        total = r;
-                    } else {
-                        total += r;
-                    }
-                    if (total < targetFrameSize) {
-                        origin += r;
-                        continue;
-                    } else {
-                        origin = 0;
-                    }
-                    size = RKWebSocketFrameDecode((void **)&anchor, W->frame);
-                    if (!h->fin) {
-                        fprintf(stderr, "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I cannot handle frames with h->fin = 0.\n");
-                    }
-                    if (W->verbose > 1) {
-                        if (W->verbose > 2) {
-                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W);
-                        }
-                        if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
-                            RKBytesInHex(show, anchor, size);
-                        } else if (size > 32) {
-                            RKHeadTailBytesInHex(show, anchor, size);
-                        } else {
-                            memcpy(show, anchor, size);
-                            show[size] = '\0';
-                        }
-                        RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
-                              OPCODE_STRING(h->opcode),
-                              rkGlobalParameters.showColor ? RKOrangeColor : "",
-                              show,
-                              rkGlobalParameters.showColor ? RKNoColor : "",
-                              size);
-                    }
+                    total = RKWebSocketHandleFrames(W, total + r);
                     W->timeoutCount = 0;
                 } else {
                     // This shall not reach
@@ -477,12 +565,12 @@ void *transporter(void *in) {
                 if (W->timeoutCount++ >= W->timeoutThreshold) {
                     W->timeoutCount = 0;
                     char *word = words[rand() % 8];
-                    r = RKWebSocketPing(W, word, (int)strlen(word));
+                    r = RKWebSocketPing(W, word, strlen(word));
                     if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
+                        p32 = (uint32_t *)&W->txFrame[2];
                         ws_mask_key key = {.u32 = *p32};
                         for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
+                            uword[i] = W->txFrame[6 + i] ^ key.code[i % 4];
                         }
                         RKLog("%s C-PING: %s%s%s (%zu)\n", W->name,
                               rkGlobalParameters.showColor ? RKLimeColor : "",
@@ -490,55 +578,18 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               strlen(word));
                         if (W->verbose > 2) {
-                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W);
+                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W->txFrame);
                         }
                     }
                 }
             }
-            // Interpret the payload if something was read
-            if (size > 0) {
-                if (h->opcode == RFC6455_OPCODE_PING) {
-                    // Make a copy since payload --> W->buf or the behavior is unpredictable
-                    memcpy(message, anchor, h->len); message[h->len] = '\0';
-                    RKWebSocketPong(W, message, h->len);
-                    if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
-                        ws_mask_key key = {.u32 = *p32};
-                        for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
-                        }
-                        if (h->len != 4) {
-                            RKBytesInHex(show, message, h->len);
-                        } else {
-                            memcpy(show, message, h->len + 1);
-                        }
-                        RKLog("%s C-PONG: %s%s%s (%zu)\n", W->name,
-                              rkGlobalParameters.showColor ? RKLimeColor : "",
-                              show,
-                              rkGlobalParameters.showColor ? RKNoColor : "",
-                              h->len);
-                        if (W->verbose > 2) {
-                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W);
-                        }
-                    }
-                } else if (h->opcode == RFC6455_OPCODE_PONG) {
-                    W->timeoutCount = 0;
-                } else if (h->opcode == RFC6455_OPCODE_CLOSE) {
-                    W->connected = false;
-                    break;
-                } else if (h->opcode == RFC6455_OPCODE_TEXT || h->opcode == RFC6455_OPCODE_BINARY) {
-                    if (W->onMessage) {
-                        W->onMessage(W, anchor, size);
-                    }
-                }
-                W->timeoutCount = 0;
-            }
         } // while (W->wantActive && W->connected) ...
         if (W->sd) {
             if (W->verbose > 1) {
                 RKLog("%s Closing socket sd = %d ...\n", W->name, W->sd);
             }
-            if (W->onClose) {
+            W->connected = false;
+            if (opened && W->onClose) {
                 W->onClose(W);
             }
             close(W->sd);
@@ -638,6 +689,7 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     }
     W->timeoutDeltaMicroseconds = RKWebSocketTimeoutDeltaMicroseconds;
     RKWebSocketSetPingInterval(W, RKWebSocketTimeoutThresholdSeconds);
+    signal(SIGPIPE, SIG_IGN);
 
     return W;
 }
@@ -717,9 +769,15 @@ void RKWebSocketWait(RKWebSocket *W) {
 
 // RKWebSocketSend() does not make a copy of the source.
 // The input source must be allocated using malloc() or similar variants.
+// Returns -1 if it is not taken: too many are pending or it is too large.
 int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
     pthread_mutex_lock(&W->lock);
     uint16_t k = W->payloadHead == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadHead + 1;
+    if (k == W->payloadTail || size > RKWebSocketPayloadSize) {
+        // No room for another payload, or no frame that could take it
+        pthread_mutex_unlock(&W->lock);
+        return -1;
+    }
     W->payloads[k].source = source;
     W->payloads[k].size = size;
     W->payloadHead = k;
-- 
2.43.0


From 513003910f069b3ef8305df74e1b3aaf5c0f3beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 44/54] fix: the lock of a command queue is aligned

---
 headers/RadarKit/RKTypes.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index 9438134..2b37677 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -1664,6 +1664,9 @@ typedef struct rk_task {
     RKEventType          endingEvent;                                          // Ending event that indicates completion of the task
 } RKTask;
 
+#pragma pack(pop)
+
+// Not packed, the lock in it must be aligned
 typedef struct rk_command_queue {
     uint16_t             head;                                                 // Head index (for push)
     uint16_t             tail;                                                 // Tail index (for pop)
@@ -1676,6 +1679,4 @@ typedef struct rk_command_queue {
     uint32_t             toc;                                                  // Withdrawal count
 } RKCommandQueue;
 
-#pragma pack(pop)
-
 #endif /* defined(__RadarKit_Types__) */
-- 
2.43.0


From 8b2508d6c5ace92abbe12d879561490750f799dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:41 +0000
Subject: [PATCH 45/54] fix: the raw data recorder goes by one reading of the
 record flag, keeps what is cached when it stops, reports files once and
 writes all of it

---
 source/RKRawDataRecorder.c | 117 +++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 45 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c08143..73e128c 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -11,6 +11,8 @@
 // Internal Functions
 
 static void RKRawDataRecorderUpdateStatusString(RKRawDataRecorder *);
+static size_t RKRawDataRecorderWrite(RKRawDataRecorder *, const void *, const size_t);
+static size_t RKRawDataRecorderCloseFile(RKRawDataRecorder *, const char *filename, const int n, size_t len);
 static void *pulseRecorder(void *);
 
 #pragma mark - Helper Functions
@@ -39,6 +41,47 @@ static void RKRawDataRecorderUpdateStatusString(RKRawDataRecorder *engine) {
     engine->statusBufferIndex = RKNextModuloS(engine->statusBufferIndex, RKBufferSSlotCount);
 }
 
+// Everything goes out, even if write() takes only some of it at a time
+static size_t RKRawDataRecorderWrite(RKRawDataRecorder *engine, const void *payload, const size_t size) {
+    ssize_t r;
+    size_t writtenSize = 0;
+    engine->fileWriteCount++;
+    while (writtenSize < size) {
+        r = write(engine->fd, (const char *)payload + writtenSize, size - writtenSize);
+        if (r < 0 && errno == EINTR) {
+            continue;
+        }
+        if (r <= 0) {
+            RKLog("%s Error in write().   writtenSize = %s\n", engine->name, RKUIntegerToCommaStyleString(writtenSize));
+            break;
+        }
+        writtenSize += r;
+    }
+    return writtenSize;
+}
+
+static size_t RKRawDataRecorderCloseFile(RKRawDataRecorder *engine, const char *filename, const int n, size_t len) {
+    len += RKRawDataRecorderCacheFlush(engine);
+    close(engine->fd);
+    engine->fd = 0;
+    RKLog("%s %sRecorded%s %s (%s pulses, %s %sB) w%d\n",
+          engine->name,
+          rkGlobalParameters.showColor ? RKGreenColor : "",
+          rkGlobalParameters.showColor ? RKNoColor : "",
+          filename,
+          RKIntegerToCommaStyleString(n),
+          RKFloatToCommaStyleString((len > 1000000000 ? 1.0e-9f : 1.0e-6f) * len),
+          len > 1000000000 ? "G" : "M",
+          (int)engine->fileWriteCount);
+    // Notify file manager of a new addition
+    if (engine->fileWriteCount == 0) {
+        remove(filename);
+    } else if (engine->fileManager) {
+        RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeIQ);
+    }
+    return len;
+}
+
 #pragma mark - Delegate Workers
 
 static void *pulseRecorder(void *in) {
@@ -48,7 +91,8 @@ static void *pulseRecorder(void *in) {
 
     struct timeval t0, t1;
 
-    bool record = engine->record;
+    bool record = false;
+    bool wanted = false;
 
     RKPulse *pulse;
     RKConfig *config;
@@ -85,7 +129,7 @@ static void *pulseRecorder(void *in) {
 
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
-    j = 0;   // config index
+    j = -1;  // config index, none yet
     k = 0;   // pulse index
     n = 0;   // pulse sample count
     while (engine->state & RKEngineStateWantActive) {
@@ -131,32 +175,17 @@ static void *pulseRecorder(void *in) {
         engine->state |= RKEngineStateWritingFile;
 
         // Assess the configIndex, or if we reached the maximum pulse count for a file; or when user just decided to start/stop recording
-        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != engine->record) {
+        // The flag may change at any time, a pulse goes by what it is now
+        wanted = engine->record;
+        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != wanted) {
+            record = wanted;
             j = pulse->header.configIndex;
             config = &engine->configBuffer[pulse->header.configIndex];
             waveform = config->waveform;
 
             // Close the current file
             if (engine->fd) {
-                len += RKRawDataRecorderCacheFlush(engine);
-                close(engine->fd);
-                engine->fd = 0;
-                RKLog("%s %sRecorded%s %s (%s pulses, %s %sB) w%d\n",
-                      engine->name,
-                      rkGlobalParameters.showColor ? RKGreenColor : "",
-                      rkGlobalParameters.showColor ? RKNoColor : "",
-                      filename,
-                      RKIntegerToCommaStyleString(n),
-                      RKFloatToCommaStyleString((len > 1000000000 ? 1.0e-9f : 1.0e-6f) * (len + engine->cacheWriteIndex)),
-                      len > 1000000000 ? "G" : "M",
-                      engine->fileWriteCount);
-                if (engine->fileWriteCount == 0) {
-                    remove(filename);
-                }
-                // Notify file manager of a new addition
-                if (engine->fileManager) {
-                    RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeIQ);
-                }
+                len = RKRawDataRecorderCloseFile(engine, filename, n, len);
             } else {
                 if (strlen(filename)) {
                     RKLog("%s %sSkipped%s %s (%s pulses, %s %sB)\n",
@@ -177,26 +206,33 @@ static void *pulseRecorder(void *in) {
             i += snprintf(filename + i, RKMaximumPrefixLength + 2, "/%s-", engine->radarDescription->filePrefix);
             i += strftime(filename + i, 16, "%Y%m%d-%H%M%S", gmtime(&startTime));
             i += snprintf(filename + i, 5, ".%03d", (int)pulse->header.time.tv_usec / 1000);
-            if (engine->rawDataType == RKRawDataTypeFromTransceiver) {
+            fileHeader->dataType = engine->rawDataType;
+            if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
                 sprintf(filename + i, ".rkr");
             } else {
                 sprintf(filename + i, ".rkc");
             }
-            fileHeader->dataType = engine->rawDataType;
 
             n = 0;
 
             if (engine->verbose > 1) {
                 RKLog("%s New I/Q %s ...\n", engine->name, filename);
             }
-            if (engine->record && config->i > 1003) {
+            if (record && waveform && config->i > 1003) {
                 RKPreparePath(filename);
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
                 fileHeader->config.waveform = NULL;
-                engine->fd = open(filename, O_CREAT | O_WRONLY, 0000644);
+                engine->fd = open(filename, O_CREAT | O_WRONLY | O_TRUNC, 0000644);
+                if (engine->fd < 0) {
+                    RKLog("%s Error. Unable to open %s for writing.\n", engine->name, filename);
+                    engine->fd = 0;
+                }
                 engine->fileWriteCount = 0;
                 engine->cacheWriteIndex = 0;
+                pulseCount = 0;
+            }
+            if (engine->fd) {
                 len = RKRawDataRecorderCacheWrite(engine, fileHeader, sizeof(RKFileHeader));
                 // 512-B wave header
                 strcpy(waveGlobalHeader->name, waveform->name);
@@ -218,7 +254,7 @@ static void *pulseRecorder(void *in) {
                 }
             } else {
                 len = sizeof(RKFileHeader) + sizeof(RKWaveFileGlobalHeader);
-                for (i = 0; i < waveform->count; i++) {
+                for (i = 0; waveform && i < waveform->count; i++) {
                     len += waveform->filterCounts[i] * sizeof(RKFilterAnchor);
                     len += waveform->depth * sizeof(RKComplex);
                     len += waveform->depth * sizeof(RKInt16C);
@@ -227,7 +263,7 @@ static void *pulseRecorder(void *in) {
         }
 
         // Pulse to write cache
-        if (engine->record && engine->fd) {
+        if (engine->fd) {
             if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
                 len += RKRawDataRecorderCacheWrite(engine, &pulse->header, sizeof(RKPulseHeader));
                 len += RKRawDataRecorderCacheWrite(engine, RKGetInt16CDataFromPulse(pulse, 0), pulse->header.gateCount * sizeof(RKInt16C));
@@ -244,10 +280,11 @@ static void *pulseRecorder(void *in) {
                 len += sizeof(RKPulseHeader) + 2 * pulse->header.downSampledGateCount * sizeof(RKComplex);
             }
         }
-        pulseCount++;
-
         if (cacheFlushCount != engine->cacheFlushCount) {
             cacheFlushCount = engine->cacheFlushCount;
+            // Stay clear of the slots that are taken for new pulses
+            s = (int)((k + engine->radarDescription->pulseBufferDepth - *engine->pulseIndex) % engine->radarDescription->pulseBufferDepth) - (int)engine->radarDescription->pulseBufferDepth / 4;
+            pulseCount = MIN(pulseCount, (size_t)MAX(s, 0));
             i = k;
             while (pulseCount > 0) {
                 pulseCount--;
@@ -258,6 +295,7 @@ static void *pulseRecorder(void *in) {
                 }
             }
         }
+        pulseCount++;
 
         // Log a message if it has been a while
         gettimeofday(&t0, NULL);
@@ -273,16 +311,11 @@ static void *pulseRecorder(void *in) {
 
         // Update pulseIndex for the next watch
         k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
-        record = engine->record;
         n++;
     }
 
     if (engine->fd) {
-        close(engine->fd);
-        engine->fd = 0;
-        if (engine->fileWriteCount == 0) {
-            remove(filename);
-        }
+        RKRawDataRecorderCloseFile(engine, filename, n, len);
     }
 
     free(fileHeader);
@@ -435,16 +468,11 @@ size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payloa
         lastChunkSize = engine->cacheSize - engine->cacheWriteIndex;
         memcpy(engine->cache + engine->cacheWriteIndex, payload, lastChunkSize);
         remainingSize = size - lastChunkSize;
-        writtenSize = (uint32_t)write(engine->fd, engine->cache, engine->cacheSize);
-        engine->fileWriteCount++;
-        if (writtenSize != engine->cacheSize) {
-            RKLog("%s Error in write().   writtenSize = %s\n", RKIntegerToCommaStyleString((long)writtenSize));
-        }
+        writtenSize = RKRawDataRecorderWrite(engine, engine->cache, engine->cacheSize);
         engine->cacheFlushCount++;
         engine->cacheWriteIndex = 0;
         if (remainingSize >= engine->cacheSize) {
-            writtenSize += (uint32_t)write(engine->fd, (char *)(payload + lastChunkSize), remainingSize);
-            engine->fileWriteCount++;
+            writtenSize += RKRawDataRecorderWrite(engine, (char *)payload + lastChunkSize, remainingSize);
             return writtenSize;
         }
     }
@@ -457,8 +485,7 @@ size_t RKRawDataRecorderCacheFlush(RKRawDataRecorder *engine) {
     if (engine->cacheWriteIndex == 0) {
         return 0;
     }
-    size_t writtenSize = write(engine->fd, engine->cache, engine->cacheWriteIndex);
+    size_t writtenSize = RKRawDataRecorderWrite(engine, engine->cache, engine->cacheWriteIndex);
     engine->cacheWriteIndex = 0;
-    engine->fileWriteCount++;
     return writtenSize;
 }
-- 
2.43.0


From 9234b3a5bbde6f0644c3562265dc99940dd670ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:41 +0000
Subject: [PATCH 46/54] fix: pulses that do not fit are not read from a file,
 old pulse headers are read from the right place

---
 source/RKFileHeader.c |  2 +-
 source/RKFoundation.c | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 85eaca0..0225ff0 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -98,7 +98,7 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         for ( k = 0; k < waveform->count; k++) {
             r += waveform->filterCounts[k] * sizeof(RKFilterAnchor);
         }
-        r += waveform->depth * (sizeof(RKComplex) + sizeof(RKInt16C));
+        r += waveform->count * waveform->depth * (sizeof(RKComplex) + sizeof(RKInt16C));
         if (fp != r) {
             RKLog("Error. I detected a bug.  fp = %s != %s\n", RKIntegerToCommaStyleString(fp), RKIntegerToCommaStyleString(r));
         }
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 211679c..dacbd6a 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1246,7 +1246,7 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             pulse->header.n = headerV1->n;
             pulse->header.t = headerV1->t;
             pulse->header.gateCount = headerV1->gateCount;
-            pulse->header.downSampledGateCount = header->downSampledGateCount;
+            pulse->header.downSampledGateCount = headerV1->downSampledGateCount;
             pulse->header.pulseWidthSampleCount = headerV1->pulseWidthSampleCount;
             pulse->header.marker = headerV1->marker;
             pulse->header.time = headerV1->time;
@@ -1300,6 +1300,14 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
         pulse->header.capacity = capacity;
         RKLog("Warning. Pulse capacity restored.\n");
     }
+    if (pulse->header.gateCount > capacity || pulse->header.downSampledGateCount > capacity) {
+        RKLog("Error. Pulse with %s gates does not fit in %s.\n",
+              RKIntegerToCommaStyleString(MAX(pulse->header.gateCount, pulse->header.downSampledGateCount)),
+              RKIntegerToCommaStyleString(capacity));
+        pulse->header.gateCount = 0;
+        pulse->header.downSampledGateCount = 0;
+        return RKResultTooBig;
+    }
     // Pulse payload: H and V data into channels 0 and 1, respectively. Duplicate to split-complex storage
     for (j = 0; j < 2; j++) {
         if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
-- 
2.43.0


From dc5d93387fe4aa52fea0455b51f5f57c76dba9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 47/54] fix: the file manager lists any number of files, goes
 by the time in their names, and removes nothing else

---
 headers/RadarKit/RKFileManager.h |  11 +-
 source/RKFileManager.c           | 604 ++++++++++++-------------------
 2 files changed, 229 insertions(+), 386 deletions(-)

diff --git a/headers/RadarKit/RKFileManager.h b/headers/RadarKit/RKFileManager.h
index 8353f23..eaad943 100644
--- a/headers/RadarKit/RKFileManager.h
+++ b/headers/RadarKit/RKFileManager.h
@@ -69,17 +69,14 @@ struct rk_file_remover {
     pthread_t                        tid;
     RKFileManager                    *parent;
 
-    int                              index;                               // Index to get sorted index for removal
-    int                              count;                               // Dual use index: count and index to add (reusable buffer)
-    int                              capacity;                            // Capcity of *folders, *filenames and *indexedStats
+    int                              index;                               // The oldest file in the list
+    int                              count;                               // End of the list
+    int                              capacity;                            // Capcity of the list, it grows as needed
     size_t                           usage;
     size_t                           limit;
     char                             path[RKMaximumFolderPathLength + 384];
 
-    void                             *folders;
-    void                             *filenames;
-    void                             *indexedStats;
-    bool                             reusable;
+    void                             *files;                              // Files in the order of time
 
     struct timeval                   latestTime;
 };
diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index da8d791..7ef8712 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -8,8 +8,7 @@
 
 #include <RadarKit/RKFileManager.h>
 
-#define RKFileManagerFolderListCapacity      60
-#define RKFileManagerLogFileListCapacity     1000
+#define RKFileManagerFileListCapacity        1024
 
 // The way RadarKit names the files should be relatively short:
 // Folder: YYYYMMDD                              ( 6 chars)
@@ -19,245 +18,203 @@
 // Health: XXXXXX-YYYYMMDD-HHMMSS.json           (27 chars)
 // Log   : XXXXXX-YYYYMMDD.log                   (19 chars)
 
-#define RKFileManagerFilenameLength                 (RKMaximumSymbolLength + 25 + RKMaximumFileExtensionLength)
-
-typedef char RKPathname[RKFileManagerFilenameLength];
-typedef struct _rk_indexed_stat {
-    int      index;
-    int      folderId;
-    time_t   time;
+typedef struct _rk_file_entry {
+    time_t   time;                                                             // Time in the filename
     size_t   size;
-} RKIndexedStat;
+    char     *name;                                                            // YYYYMMDD/XXXXXX-YYYYMMDD-HHMMSS...
+} RKFileEntry;
 
 #pragma mark - Helper Functions
 
-// Compare two unix time in RKIndexedStat
-static int struct_cmp_by_time(const void *a, const void *b) {
-    RKIndexedStat *x = (RKIndexedStat *)a;
-    RKIndexedStat *y = (RKIndexedStat *)b;
-    return (int)(x->time - y->time);
+// Compare two files by the time in their names
+static int file_cmp_by_time(const void *a, const void *b) {
+    const RKFileEntry *x = (const RKFileEntry *)a;
+    const RKFileEntry *y = (const RKFileEntry *)b;
+    if (x->time != y->time) {
+        return x->time < y->time ? -1 : 1;
+    }
+    return strcmp(x->name, y->name);
 }
 
-// Compare two filenames in the pattern of YYYYMMDD, e.g., 20170402
-static int string_cmp_by_pseudo_time(const void *a, const void *b) {
-    return strncmp((char *)a, (char *)b, 8);
+static bool isDigits(const char *string, const int count) {
+    int k;
+    for (k = 0; k < count; k++) {
+        if (string[k] < '0' || string[k] > '9') {
+            return false;
+        }
+    }
+    return true;
 }
 
-static time_t timeFromFilename(const char *filename) {
-    char *yyyymmdd, *hhmmss;
-    yyyymmdd = strchr(filename, '-');
-    if (yyyymmdd == NULL) {
-        return 0;
-    }
-    yyyymmdd++;
-    hhmmss = strchr(yyyymmdd, '-');
-    if (hhmmss == NULL) {
-        return 0;
-    }
-    hhmmss++;
-    if (hhmmss - yyyymmdd > 9) {
-        // Filenames that do not follow the pattern XXXXXX-YYYYMMDD-HHMMSS-EXX.XX-PPPPPPPP.EEEEEEEE
-        RKLog("Warning. Unexpected file pattern.\n");
-        return 0;
-    }
-    struct tm tm;
-    strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm);
-    return mktime(&tm);
+// Folders are in the pattern of YYYYMMDD, e.g., 20170402
+static bool isDayFolder(const char *name) {
+    return isDigits(name, 8) && name[8] == '\0';
 }
 
-static int listElementsInFolder(RKPathname *list, const int maximumCapacity, const char *path, uint8_t type) {
-    int r, k = 0;
-    struct dirent *dir;
-    struct stat status;
-    if (list == NULL) {
-        fprintf(stderr, "list cannot be NULL.\n");
-        return -1;
-    }
-    DIR *did = opendir(path);
-    if (did == NULL) {
-        if (errno != ENOENT) {
-            // It is possible that the root storage folder is empty, in this case errno = ENOENT is okay.
-            fprintf(stderr, "Error opening directory %s  errno = %d\n", path, errno);
-        }
-        return -2;
-    }
-    char pathname[RKMaximumPathLength];
-    while ((dir = readdir(did)) != NULL && k < maximumCapacity) {
-        if (dir->d_type == DT_UNKNOWN && dir->d_name[0] != '.') {
-            //sprintf(pathname, "%s/%s", path, dir->d_name);
-            int r = sprintf(pathname, "%s/", path);
-            strncpy(pathname + r, dir->d_name, RKMaximumPathLength - r - 1);
-            pathname[RKMaximumPathLength - 1] = '\0';
-            lstat(pathname, &status);
-            if ((type == DT_REG && S_ISREG(status.st_mode)) ||
-                (type == DT_DIR && S_ISDIR(status.st_mode))) {
-                r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
-                if (r < 0) {
-                    RKLog("Error. listElementsInFolder() dir->d_name = %s\n", dir->d_name);
-                    continue;
-                }
-                k++;
-            }
-        } else if (dir->d_type == type && dir->d_name[0] != '.') {
-            r = snprintf(list[k], RKFileManagerFilenameLength, "%s", dir->d_name);
-            if (r < 0) {
-                RKLog("Error. listElementsInFolder() dir->d_name = %s\n", dir->d_name);
+// Time of a filename in the pattern of XXXXXX-YYYYMMDD-HHMMSS... or XXXXXX-YYYYMMDD-HHMM..., false if it is something else
+static bool timeFromFilename(const char *filename, time_t *time) {
+    int k;
+    struct tm tm;
+    const char *c = filename;
+    while ((c = strchr(c, '-')) != NULL) {
+        c++;
+        if (isDigits(c, 8) && c[8] == '-' && isDigits(c + 9, 4)) {
+            memset(&tm, 0, sizeof(struct tm));
+            k = sscanf(c, "%4d%2d%2d-%2d%2d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min);
+            if (k != 5) {
                 continue;
             }
-            k++;
+            if (isDigits(c + 13, 2)) {
+                tm.tm_sec = (c[13] - '0') * 10 + c[14] - '0';
+            }
+            tm.tm_year -= 1900;
+            tm.tm_mon--;
+            *time = timegm(&tm);
+            return true;
         }
     }
-    closedir(did);
-    return k;
-}
-
-static int listFoldersInFolder(RKPathname *list, const int maximumCapacity, const char *path) {
-    return listElementsInFolder(list, maximumCapacity, path, DT_DIR);
+    return false;
 }
 
-static int listFilesInFolder(RKPathname *list, const int maximumCapacity, const char *path) {
-    return listElementsInFolder(list, maximumCapacity, path, DT_REG);
-}
-
-static bool isFolderEmpty(const char *path) {
-    struct dirent *dir;
-    DIR *did = opendir(path);
-    if (did == NULL) {
-        fprintf(stderr, "Error opening directory %s\n", path);
+// Regular files or folders, nothing hidden
+static bool isElementOfType(const char *path, const struct dirent *dir, const uint8_t type) {
+    char pathname[RKMaximumPathLength + 256];
+    struct stat status;
+    if (dir->d_name[0] == '.') {
         return false;
     }
-    while ((dir = readdir(did)) != NULL) {
-        if (dir->d_type == DT_REG) {
-            closedir(did);
-            return false;
+    if (dir->d_type != DT_UNKNOWN) {
+        return dir->d_type == type;
+    }
+    snprintf(pathname, sizeof(pathname), "%s/%s", path, dir->d_name);
+    if (lstat(pathname, &status)) {
+        return false;
+    }
+    return (type == DT_REG && S_ISREG(status.st_mode)) || (type == DT_DIR && S_ISDIR(status.st_mode));
+}
+
+// Another entry at the end of the list, the space of the files that are gone is used again
+static RKFileEntry *nextFileEntry(RKFileRemover *me) {
+    RKFileEntry *files = (RKFileEntry *)me->files;
+    if (me->count == me->capacity && me->index > me->capacity / 2) {
+        memmove(files, files + me->index, (me->count - me->index) * sizeof(RKFileEntry));
+        me->count -= me->index;
+        me->index = 0;
+    } else if (me->count == me->capacity) {
+        files = (RKFileEntry *)realloc(me->files, 2 * me->capacity * sizeof(RKFileEntry));
+        if (files == NULL) {
+            return NULL;
         }
+        me->files = files;
+        me->parent->memoryUsage += me->capacity * sizeof(RKFileEntry);
+        me->capacity *= 2;
     }
-    closedir(did);
-    return true;
+    return files + me->count++;
 }
 
 static void refreshFileList(RKFileRemover *me) {
-    int i, j, k;
+    int count;
+    time_t time;
+    DIR *did, *fid;
+    struct dirent *dir, *ent;
     struct stat fileStat;
-    char command[RKMaximumPathLength + 8];
-    char string[RKMaximumStringLength];
-    char format[32];
-
-    RKPathname *folders = (RKPathname *)me->folders;
-    RKPathname *filenames = (RKPathname *)me->filenames;
-    RKIndexedStat *indexedStats = (RKIndexedStat *)me->indexedStats;
-    if (indexedStats == NULL) {
-        RKLog("%s Not properly allocated.\n", me->name);
-        return;
-    }
+    RKFileEntry *file;
+    char path[sizeof(me->path) + 600];
+    char name[600];
+    char newest[9] = "";
 
     me->index = 0;
     me->count = 0;
     me->usage = 0;
 
-    // Go through all folders
-    int folderCount = listFoldersInFolder(folders, RKFileManagerFolderListCapacity, me->path);
-    if (folderCount <= 0) {
-        me->reusable = true;
+    // It is possible that the root storage folder is empty, in this case errno = ENOENT is okay.
+    did = opendir(me->path);
+    if (did == NULL) {
+        if (errno != ENOENT) {
+            RKLog("%s Error opening directory %s  errno = %d\n", me->name, me->path, errno);
+        }
         return;
     }
 
-    // Sort the folders by name (should be in time numbers)
-    qsort(folders, folderCount, sizeof(RKPathname), string_cmp_by_pseudo_time);
-
-    if (me->parent->verbose > 2) {
-        const int w = RKDigitWidth((float)folderCount, 0);
-        RKLog("%s Folders (%d)   w = %d:\n", me->name, folderCount, w);
-        snprintf(format, sizeof(format), ">%%s %%%dd. %%s\n", w);
-        for (k = 0; k < folderCount; k++) {
-            snprintf(string, sizeof(string), "%s/%s", me->path, folders[k]);
-            RKLog(format, me->name, k, string);
+    // The newest folder, that is where files may be about to come
+    while ((dir = readdir(did)) != NULL) {
+        if (isElementOfType(me->path, dir, DT_DIR) && isDayFolder(dir->d_name) && strcmp(dir->d_name, newest) > 0) {
+            strcpy(newest, dir->d_name);
         }
     }
+    rewinddir(did);
 
     // Go through all files in the folders
-    for (j = 0, k = 0; k < folderCount && me->count < me->capacity; k++) {
-        snprintf(string, sizeof(string), "%s/%s", me->path, folders[k]);
-        int count = listFilesInFolder(&filenames[me->count], me->capacity - me->count, string);
-        if (me->parent->verbose > 1) {
-            RKLog("%s %s (%s files)\n", me->name, string, RKIntegerToCommaStyleString(count));
+    while ((dir = readdir(did)) != NULL) {
+        if (!isElementOfType(me->path, dir, DT_DIR) || !isDayFolder(dir->d_name)) {
+            continue;
+        }
+        snprintf(path, sizeof(path), "%s/%s", me->path, dir->d_name);
+        fid = opendir(path);
+        if (fid == NULL) {
+            RKLog("%s Error. Unable to list files in %s\n", me->name, path);
+            continue;
         }
-        if (count < 0) {
-            RKLog("%s Error. Unable to list files in %s\n", me->name, string);
-            return;
-        } else if (count == 0) {
-            RKLog(">%s Removing %s ...\n", me->name, string);
-            i = snprintf(command, RKMaximumCommandLength, "rm -rf %s", string);
-            if (i < 0) {
-                RKLog("%s Error. Failed generating system command.\n", me->name);
-                RKLog("%s Error. path = %s.\n", me->name, string);
-                break;
+        count = 0;
+        while ((ent = readdir(fid)) != NULL) {
+            if (!isElementOfType(path, ent, DT_REG) || !timeFromFilename(ent->d_name, &time)) {
+                continue;
             }
-            i = system(command);
-            if (i) {
-                RKLog("Error. system(%s) -> %d   errno = %d\n", command, i, errno);
+            snprintf(name, sizeof(name), "%s/%s", dir->d_name, ent->d_name);
+            snprintf(path, sizeof(path), "%s/%s", me->path, name);
+            if (lstat(path, &fileStat) == 0 && (file = nextFileEntry(me)) != NULL) {
+                file->time = time;
+                file->size = fileStat.st_size;
+                file->name = strdup(name);
+                me->usage += file->size;
+                count++;
             }
-        } else if (count == me->capacity - me->count) {
-            RKLog("%s Info. At capacity. Suggest keeping less data on main host.\n", me->name);
+            snprintf(path, sizeof(path), "%s/%s", me->path, dir->d_name);
         }
-        me->count += count;
-        if (me->count > me->capacity) {
-            RKLog("%s Error. %s > %s", me->name,
-                  RKVariableInString("count", &me->count, RKValueTypeInt), RKVariableInString("capacity", &me->capacity, RKValueTypeInt));
-            return;
+        closedir(fid);
+        if (me->parent->verbose > 1) {
+            RKLog("%s %s (%s files)\n", me->name, path, RKIntegerToCommaStyleString(count));
         }
-        for (; j < me->count; j++) {
-            sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
-            stat(string, &fileStat);
-            indexedStats[j].index = j;
-            indexedStats[j].folderId = k;
-            indexedStats[j].time = timeFromFilename(filenames[j]);
-            indexedStats[j].size = fileStat.st_size;
-            me->usage += fileStat.st_size;
+        // A folder with anything else in it stays
+        if (count == 0 && strcmp(dir->d_name, newest) && rmdir(path) == 0) {
+            RKLog(">%s Removed empty folder %s\n", me->name, path);
         }
     }
+    closedir(did);
 
     // Sort the files by time
-    qsort(indexedStats, me->count, sizeof(RKIndexedStat), struct_cmp_by_time);
-
-    if (me->parent->verbose > 2) {
-        RKLog("%s Files (%s):\n", me->name, RKIntegerToCommaStyleString(me->count));
-        for (k = 0; k < me->count; k++) {
-            RKLog(">%s %5s. %s/%s/%s  %zu %d i%d\n", me->name,
-                  RKIntegerToCommaStyleString(k),
-                  me->parent->dataPath, folders[indexedStats[k].folderId], filenames[indexedStats[k].index],
-                  indexedStats[k].time, indexedStats[k].folderId, indexedStats[k].index);
-        }
-    }
+    qsort(me->files, me->count, sizeof(RKFileEntry), file_cmp_by_time);
+}
 
-    // We can operate in a circular buffer fashion if all the files are accounted
-    if (me->count < me->capacity) {
-        me->reusable = true;
-    } else {
-        me->reusable = false;
-        if (folderCount == 1) {
-            RKLog("%s Warning. Too many files in '%s'.\n", me->name, me->path);
-            RKLog("%s Warning. Unexpected file removals may occur.\n", me->name);
-        }
-        // Re-calculate the usage since all slots have been used but there were still more files
-        me->usage = 0;
-        for (k = 0; k < folderCount; k++) {
-            struct dirent *dir;
-            sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
-            DIR *did = opendir(string);
-            if (did == NULL) {
-                fprintf(stderr, "Unable to list folder '%s'\n", string);
-                continue;
-            }
-            while ((dir = readdir(did)) != NULL) {
-                sprintf(string, "%s/%s/%s", me->path, folders[k], dir->d_name);
-                stat(string, &fileStat);
-                me->usage += fileStat.st_size;
-            }
-            closedir(did);
+// Files come in order of time, mostly
+static int addFile(RKFileRemover *me, const char *name, const time_t time, const size_t size) {
+    int k, j;
+    RKFileEntry *files = (RKFileEntry *)me->files;
+    for (k = me->count; k > me->index && files[k - 1].time > time; k--) {
+    }
+    // One that has been here before
+    for (j = k; j > me->index && files[j - 1].time == time; j--) {
+        if (!strcmp(files[j - 1].name, name)) {
+            me->usage += size - files[j - 1].size;
+            files[j - 1].size = size;
+            return RKResultSuccess;
         }
-        RKLog("%s Truncated list with total usage = %s B\n", me->name, RKUIntegerToCommaStyleString(me->usage));
     }
+    char *copy = strdup(name);
+    k -= me->count;
+    RKFileEntry *last = nextFileEntry(me);
+    if (copy == NULL || last == NULL) {
+        RKLog("%s Error. Unable to keep track of %s\n", me->name, name);
+        return RKResultFileManagerBufferNotResuable;
+    }
+    for (; k < 0; k++, last--) {
+        *last = *(last - 1);
+    }
+    last->time = time;
+    last->size = size;
+    last->name = copy;
+    me->usage += size;
+    return RKResultSuccess;
 }
 
 #pragma mark - Delegate Workers
@@ -270,9 +227,9 @@ static void *fileRemover(void *in) {
 
     const int c = me->id;
 
-    char path[RKMaximumPathLength + 256];
-    char command[RKMaximumPathLength];
-    char parentFolder[RKFileManagerFilenameLength] = "";
+    size_t n;
+    RKFileEntry *file;
+    char path[RKMaximumPathLength + 512];
     struct timeval time = {0, 0};
 
 	// Initiate my name
@@ -294,42 +251,12 @@ static void *fileRemover(void *in) {
     }
     snprintf(me->name, RKChildNameLength, "%s %s", engine->name, name);
 
-    size_t bytes;
-    size_t mem = 0;
-
-    bytes = RKFileManagerFolderListCapacity * sizeof(RKPathname);
-    RKPathname *folders = (RKPathname *)malloc(bytes);
-    if (folders == NULL) {
-        RKLog("%s Error. Unable to allocate space for folder list.\n", me->name);
-        return (void *)-1;
-    }
-    memset(folders, 0, bytes);
-    mem += bytes;
-
-    bytes = me->capacity * sizeof(RKPathname);
-    RKPathname *filenames = (RKPathname *)malloc(bytes);
-    if (filenames == NULL) {
+    size_t mem = me->capacity * sizeof(RKFileEntry);
+    me->files = malloc(mem);
+    if (me->files == NULL) {
         RKLog("%s Error. Unable to allocate space for file list.\n", me->name);
-        free(folders);
-        return (void *)-2;
-    }
-    memset(filenames, 0, bytes);
-    mem += bytes;
-
-    bytes = me->capacity * sizeof(RKIndexedStat);
-    RKIndexedStat *indexedStats = (RKIndexedStat *)malloc(bytes);
-    if (indexedStats == NULL) {
-        RKLog("%s Error. Unable to allocate space for indexed stats.\n", me->name);
-        free(folders);
-        free(filenames);
-        return (void *)-2;
+        return (void *)-1;
     }
-    memset(indexedStats, 0, bytes);
-    mem += bytes;
-
-    me->folders = folders;
-    me->filenames = filenames;
-    me->indexedStats = indexedStats;
 
     pthread_mutex_lock(&engine->mutex);
     engine->memoryUsage += mem;
@@ -337,9 +264,6 @@ static void *fileRemover(void *in) {
     // Gather the initial file list in the folders
     refreshFileList(me);
 
-    // Use the first folder as the initial value of parentFolder
-    strcpy(parentFolder, folders[0]);
-
     RKLog(">%s Started.   mem = %s B   capacity = %s\n",
           me->name, RKUIntegerToCommaStyleString(mem), RKUIntegerToCommaStyleString(me->capacity));
     RKLog(">%s Path = %s\n", me->name, me->path);
@@ -367,9 +291,6 @@ static void *fileRemover(void *in) {
 
     pthread_mutex_unlock(&engine->mutex);
 
-    engine->state |= RKEngineStateActive;
-
-    me->index = 0;
     while (engine->state & RKEngineStateWantActive) {
 
         pthread_mutex_lock(&engine->mutex);
@@ -379,65 +300,30 @@ static void *fileRemover(void *in) {
         }
 
         // Removing files
-        while (me->usage > me->limit) {
-            // Build the complete path from various components
-            sprintf(path, "%s/%s/%s", me->path, folders[indexedStats[me->index].folderId], filenames[indexedStats[me->index].index]);
+        while (me->usage > me->limit && me->index < me->count) {
+            file = (RKFileEntry *)me->files + me->index;
+            snprintf(path, sizeof(path), "%s/%s", me->path, file->name);
             if (engine->verbose) {
-				if (indexedStats[me->index].size > 1.0e9) {
-					RKLog("%s Removing %s (%s GB) ...\n", me->name, path, RKFloatToCommaStyleString(1.0e-9f * (float)indexedStats[me->index].size));
-				} else if (indexedStats[me->index].size > 1.0e6) {
-					RKLog("%s Removing %s (%s MB) ...\n", me->name, path, RKFloatToCommaStyleString(1.0e-6f * (float)indexedStats[me->index].size));
-				} else if (indexedStats[me->index].size > 1.0e3) {
-					RKLog("%s Removing %s (%s KB) ...\n", me->name, path, RKFloatToCommaStyleString(1.0e-3f * (float)indexedStats[me->index].size));
-				} else {
-					RKLog("%s Removing %s (%s B) ...\n", me->name, path, RKUIntegerToCommaStyleString(indexedStats[me->index].size));
-				}
+                RKLog("%s Removing %s (%s B) ...\n", me->name, path, RKUIntegerToCommaStyleString(file->size));
             }
-            if (!strlen(parentFolder)) {
-                strcpy(parentFolder, folders[indexedStats[me->index].folderId]);
-                RKLog("%s Set parentFolder to %s\n", me->name, parentFolder);
+            if (remove(path) && errno != ENOENT) {
+                RKLog("%s Error. Unable to remove %s   errno = %d\n", me->name, path, errno);
             }
-            remove(path);
-            me->usage -= indexedStats[me->index].size;
-			if (engine->verbose > 1) {
-				RKLog("%s Usage -> %s B / %s B\n", me->name, RKUIntegerToCommaStyleString(me->usage), RKUIntegerToCommaStyleString(me->limit));
-			}
-
-            // Get the parent folder, if it is different than before, check if it is empty, and remove it if so.
-            if (strcmp(parentFolder, folders[indexedStats[me->index].folderId])) {
-                sprintf(path, "%s/%s", me->path, parentFolder);
-                if (isFolderEmpty(path)) {
-                    RKLog("%s Removing folder %s that is empty ...\n", me->name, path);
-                    k = snprintf(command, RKMaximumCommandLength, "rm -rf %s", path);
-                    if (k < 0) {
-                        RKLog("%s Error. Failed generating system command.\n", me->name);
-                        RKLog("%s Error. path = %s.\n", me->name, path);
-                        break;
-                    }
-                    k = system(command);
-                    if (k) {
-                        RKLog("Error. system(%s) -> %d   errno = %d\n", command, k, errno);
-                    }
-                }
-                RKLog("%s New parentFolder = %s -> %s\n", me->name, parentFolder, folders[indexedStats[me->index].folderId]);
-                strcpy(parentFolder, folders[indexedStats[me->index].folderId]);
+            me->usage -= file->size;
+            if (engine->verbose > 1) {
+                RKLog("%s Usage -> %s B / %s B\n", me->name, RKUIntegerToCommaStyleString(me->usage), RKUIntegerToCommaStyleString(me->limit));
             }
 
-            // Update the index for next check or refresh it entirely if there are too many files
-            me->index++;
-            if (me->index == me->capacity) {
-                me->index = 0;
-                if (me->reusable) {
-                    if (engine->verbose) {
-                        RKLog("%s Reusable file list rotated to 0.\n", me->name);
-                    }
-                } else {
-                    if (engine->verbose) {
-                        RKLog("%s Refreshing file list ...\n", me->name);
-                    }
-                    refreshFileList(me);
+            // If this was the last one of a folder, remove the folder. Nothing happens to a folder that is not empty.
+            n = strcspn(file->name, "/") + 1;
+            if (me->index + 1 < me->count && strncmp(file->name, (file + 1)->name, n)) {
+                snprintf(path, sizeof(path), "%s/%.*s", me->path, (int)n - 1, file->name);
+                if (rmdir(path) == 0) {
+                    RKLog("%s Removed folder %s that is empty\n", me->name, path);
                 }
             }
+            free(file->name);
+            me->index++;
         }
 
         pthread_mutex_unlock(&engine->mutex);
@@ -450,12 +336,13 @@ static void *fileRemover(void *in) {
         }
     }
 
-    free(filenames);
-    free(indexedStats);
+    for (k = me->index; k < me->count; k++) {
+        free(((RKFileEntry *)me->files)[k].name);
+    }
+    free(me->files);
 
     RKLog(">%s Stopped.\n", me->name);
 
-    engine->state ^= RKEngineStateActive;
     return NULL;
 }
 
@@ -480,12 +367,6 @@ static void *folderWatcher(void *in) {
 
     #if defined(DEBUG_FILE_MANAGER)
 
-    const int capacities[] = {
-        100,
-        100,
-        100,
-        0
-    };
     const size_t limits[] = {
         1,
         1,
@@ -501,12 +382,6 @@ static void *folderWatcher(void *in) {
 
     #else
 
-    const int capacities[] = {
-        24 * 3600 / 2 * 10,                // Assume a file every 2 seconds, 10 folders
-        24 * 3600 / 2 * 8 * 10,            // Assume 8 files every 2 seconds, 10 folders
-        24 * 60 * 50,                      // Assume a file every minute, 50 folders
-        0
-    };
     const size_t limits[] = {
         RKFileManagerRawDataRatio,
         RKFileManagerMomentDataRatio,
@@ -526,12 +401,15 @@ static void *folderWatcher(void *in) {
 
     engine->workerCount = 3;
 
-    engine->workers = (RKFileRemover *)malloc(engine->workerCount * sizeof(RKFileRemover));
-    if (engine->workers == NULL) {
+    RKFileRemover *workers = (RKFileRemover *)malloc(engine->workerCount * sizeof(RKFileRemover));
+    if (workers == NULL) {
         RKLog(">%s Error. Unable to allocate an RKFileRemover.\n", engine->name);
         return (void *)RKResultFailedToCreateFileRemover;
     }
-    memset(engine->workers, 0, engine->workerCount * sizeof(RKFileRemover));
+    memset(workers, 0, engine->workerCount * sizeof(RKFileRemover));
+    pthread_mutex_lock(&engine->mutex);
+    engine->workers = workers;
+    pthread_mutex_unlock(&engine->mutex);
     engine->memoryUsage += engine->workerCount * sizeof(RKFileRemover);
 
     for (k = 0; k < engine->workerCount; k++) {
@@ -540,7 +418,7 @@ static void *folderWatcher(void *in) {
 
         worker->id = k;
         worker->parent = engine;
-        worker->capacity = capacities[k];
+        worker->capacity = RKFileManagerFileListCapacity;
         if (engine->radarDescription != NULL && strlen(engine->radarDescription->dataPath)) {
             snprintf(worker->path, sizeof(worker->path), "%s/%s", engine->radarDescription->dataPath, folder);
         } else if (strlen(engine->dataPath)) {
@@ -577,6 +455,8 @@ static void *folderWatcher(void *in) {
 
     RKLog("%s Started.   mem = %s B  state = %x\n", engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), engine->state);
 
+    engine->state |= RKEngineStateActive;
+
 	// Increase the tic once to indicate the engine is ready
 	engine->tic = 1;
 
@@ -618,8 +498,12 @@ static void *folderWatcher(void *in) {
     for (k = 0; k < engine->workerCount; k++) {
         pthread_join(engine->workers[k].tid, NULL);
     }
+    pthread_mutex_lock(&engine->mutex);
     free(engine->workers);
+    engine->workers = NULL;
+    pthread_mutex_unlock(&engine->mutex);
 
+    engine->state ^= RKEngineStateActive;
     return NULL;
 }
 
@@ -709,7 +593,7 @@ void RKFileManagerSetHealthDataLimit(RKFileManager *engine, const size_t limit)
 int RKFileManagerStart(RKFileManager *engine) {
     // File manager is always assumed wired, dataPath may be empty
     engine->state |= RKEngineStateProperlyWired;
-    if (engine->userRawDataUsageLimit == 0 && engine->userMomentDataUsageLimit == 0 && engine->userHealthDataUsageLimit == 0 &&
+    if ((engine->userRawDataUsageLimit == 0 || engine->userMomentDataUsageLimit == 0 || engine->userHealthDataUsageLimit == 0) &&
         engine->usagelimit == 0) {
         engine->usagelimit = RKFileManagerDefaultUsageLimit;
         RKLog("%s Usage limit not set, use default %s%s B%s (%s %s)\n",
@@ -741,7 +625,10 @@ int RKFileManagerStop(RKFileManager *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
-    pthread_mutex_lock(&engine->mutex);
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
@@ -751,12 +638,13 @@ int RKFileManagerStop(RKFileManager *engine) {
     if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) {
         RKLog("%s Inconsistent state 0x%04x\n", engine->name, engine->state);
     }
-    pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
 }
 
 int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType type) {
-    RKFileRemover *me = &engine->workers[type];
+    int r;
+    time_t time;
+    struct stat fileStat;
 
     if (!(engine->state & RKEngineStateWantActive)) {
         return RKResultEngineNotActive;
@@ -764,90 +652,48 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
 
     pthread_mutex_lock(&engine->mutex);
 
-    struct stat fileStat;
-    stat(filename, &fileStat);
-
-    gettimeofday(&me->latestTime, NULL);
-
-    // For non-reusable type, just add the size
-    if (me->reusable == false) {
-        me->usage += fileStat.st_size;
+    if (engine->workers == NULL) {
         pthread_mutex_unlock(&engine->mutex);
-        return RKResultFileManagerBufferNotResuable;
+        return RKResultEngineNotActive;
+    }
+    if (type >= engine->workerCount) {
+        RKLog("%s File %s is not one of those managed.\n", engine->name, filename);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
     }
 
-    RKPathname *folders = (RKPathname *)me->folders;
-    RKPathname *filenames = (RKPathname *)me->filenames;
-    RKIndexedStat *indexedStats = (RKIndexedStat *)me->indexedStats;
-
-    // Copy over the filename and stats to the internal buffer
-    uint32_t k = me->count;
+    RKFileRemover *me = &engine->workers[type];
 
-    // Extract out the date portion
-    char *lastPart = strrchr(filename, '/');
-    if (lastPart) {
-        if (strlen(lastPart) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s Error. I could crash here.\n", me->name);
-        }
-        if ((void *)&filenames[k] > ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength) {
-            RKLog("%s Error. I could crash here.   %p vs %p   k = %d / %d\n", me->name,
-                  (void *)&filenames[k], ((void *)filenames) + me->capacity * sizeof(RKPathname) - RKFileManagerFilenameLength,
-                  k, me->capacity);
-        }
-        strncpy(filenames[k], lastPart + 1, RKFileManagerFilenameLength - 1);
-    } else {
-        if (strlen(filename) > RKFileManagerFilenameLength - 1) {
-            RKLog("%s %s Warning. Filename is too long.\n", engine->name,  me->name);
-        }
-        strncpy(filenames[k], filename, RKFileManagerFilenameLength - 1);
+    // Those that come before the folders are listed will be in the list
+    if (me->tic == 0) {
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultEngineNotActive;
     }
 
-    if (strncmp(me->path, filename, strlen(me->path))) {
+    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
+    const size_t n = strlen(me->path);
+    const char *name = filename + n + 1;
+    const char *slash = strrchr(filename, '/');
+    if (strncmp(me->path, filename, n) || filename[n] != '/' || slash != name + 8 || !isDigits(name, 8) || !timeFromFilename(slash + 1, &time)) {
         RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
+        pthread_mutex_unlock(&engine->mutex);
         return RKResultFileManagerInconsistentFolder;
     }
-
-    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
-
-    int folderId = 0;
-    char *folder = engine->scratch;
-    strcpy(folder, filename + strlen(me->path) + 1);
-    char *e = strrchr(folder, '/');
-    *e = '\0';
-    if (strlen(folder) > RKFileManagerFilenameLength - 1) {
-        RKLog("%s Warning. Folder name is too long.\n", engine->name);
-    }
-    if (k == 0) {
-        // The data folder is empty
-        folderId = 0;
-        strcpy(folders[0], folder);
-    } else {
-        folderId = indexedStats[k - 1].folderId;
-        // If same folder as the previous entry, no need to add another folder in the list. Add one otherwise.
-        if (strcmp(folder, folders[indexedStats[k - 1].folderId])) {
-            folderId++;
-            strcpy(folders[indexedStats[k - 1].folderId + 1], folder);
-        }
+    if (stat(filename, &fileStat)) {
+        RKLog("%s File %s is not there.\n", engine->name, filename);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
     }
-    //printf("%s --> %s / %s (%d)\n", filename, folder, filenames[k], folderId);
 
-    indexedStats[k].index = k;
-    indexedStats[k].folderId = folderId;
-    indexedStats[k].time = timeFromFilename(filenames[k]);
-    indexedStats[k].size = fileStat.st_size;
+    gettimeofday(&me->latestTime, NULL);
 
-    me->usage += fileStat.st_size;
+    r = addFile(me, name, time, fileStat.st_size);
 
     if (engine->verbose > 2) {
-        RKLog("%s Added '%s'   %s B   k = %d\n", me->name, filename, RKUIntegerToCommaStyleString(indexedStats[k].size), k);
+        RKLog("%s Added '%s'   %s B   count = %d\n", me->name, filename, RKUIntegerToCommaStyleString(fileStat.st_size), me->count - me->index);
     }
 
-    me->count = RKNextModuloS(me->count, me->capacity);
-
     pthread_mutex_unlock(&engine->mutex);
 
-    //for (k = me->count - 3; k < me->count; k++) {
-    //    printf("%3d -> %3d. %s  %s\n", k, indexedStats[k].index, filenames[indexedStats[k].index], RKUIntegerToCommaStyleString(indexedStats[k].size));
-    //}
-    return RKResultSuccess;
+    return r;
 }
-- 
2.43.0


From 2dbd36e4973c35d822bad4ab9c02710d33f5eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 48/54] fix: stopping a steer engine that is not running does
 not ask it to be active

---
 source/RKSteerEngine.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 78eaa4d..e48969b 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -453,6 +453,16 @@ int RKSteerEngineStart(RKSteerEngine *engine) {
 }
 
 int RKSteerEngineStop(RKSteerEngine *engine) {
+    if (engine->state & RKEngineStateDeactivating) {
+        if (engine->verbose > 1) {
+            RKLog("%s Info. Engine is being or has been deactivated.\n", engine->name);
+        }
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
-- 
2.43.0


From 4f650cdd09f97b9faad32dd9e2a8b2cb1f970eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 49/54] fix: the steer engine follows the positions by the
 depth of their own buffer

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index e48969b..196919c 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -371,7 +371,7 @@ static void *steerer(void *_in) {
         }
 
         // Update k to catch up for the next watch
-        k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
+        k = RKNextModuloS(k, engine->radarDescription->positionBufferDepth);
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From 8978464613f32ac41c645dea7b3af8ba5061a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:19 +0000
Subject: [PATCH 50/54] fix: an engine that has started is active by the time
 its start returns

---
 source/RKHealthEngine.c    | 5 +++--
 source/RKHealthLogger.c    | 5 +++--
 source/RKRawDataRecorder.c | 7 ++++---
 source/RKSweepEngine.c     | 6 +++---
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 8d60438..2de7456 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -39,11 +39,12 @@ static void *healthConsolidator(void *_in) {
 
     RKLog("%s Started.   mem = %s B   healthIndex = %d\n", engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), *engine->healthIndex);
 
+    // Update the engine state
+    engine->state |= RKEngineStateActive;
+
 	// Increase the tic once to indicate the engine is ready
 	engine->tic = 1;
 
-    engine->state |= RKEngineStateActive;
-
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
     // Wait for the master node RKHealthNodeRadarKit to advance once (When RKRadar uses GetVacantHealth from RKHealthNodeRadarKit)
diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 88b113f..d29fae8 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -36,11 +36,12 @@ static void *healthLogger(void *in) {
 
     RKLog("%s Started.   mem = %s B   healthIndex = %d\n", engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), *engine->healthIndex);
 
+    // Update the engine state
+    engine->state |= RKEngineStateActive;
+
 	// Increase the tic once to indicate the engine is ready
 	engine->tic = 1;
 
-    engine->state |= RKEngineStateActive;
-
     gettimeofday(&t0, NULL);
 
 	// Here comes the busy loop
diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 73e128c..cccac0e 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -122,11 +122,12 @@ static void *pulseRecorder(void *in) {
 
     RKLog("%s Started.   mem = %s B   pulseIndex = %d\n", engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), *engine->pulseIndex);
 
+    // Update the engine state
+    engine->state |= RKEngineStateActive;
+
     // Increase the tic once to indicate the engine is ready
     engine->tic = 1;
 
-    engine->state |= RKEngineStateActive;
-
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
     j = -1;  // config index, none yet
@@ -412,7 +413,7 @@ int RKRawDataRecorderStart(RKRawDataRecorder *engine) {
         RKLog("%s Error. Failed to start pulse recorder.\n", engine->name);
         return RKResultFailedToStartPulseRecorder;
     }
-    while (!(engine->state & RKEngineStateWantActive)) {
+    while (engine->tic == 0) {
         usleep(10000);
     }
     return RKResultSuccess;
diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index cc672fb..39c513a 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -363,12 +363,12 @@ static void *rayGatherer(void *in) {
     RKLog("%s Started.   mem = %s B   productCount = %d   rayIndex = %d\n",
         engine->name, RKUIntegerToCommaStyleString(engine->memoryUsage), productCount, *engine->rayIndex);
 
-    // Increase the tic once to indicate the engine is ready
-    engine->tic = 1;
-
     // Update the engine state
     engine->state |= RKEngineStateActive;
 
+    // Increase the tic once to indicate the engine is ready
+    engine->tic = 1;
+
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
     j = 0;   // ray index
-- 
2.43.0


From b6da26e6459b37eef418b3e45d5d4e1f48a87e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:19 +0000
Subject: [PATCH 51/54] fix: a restarted sweep engine does not release rays by
 the sweeps of its last run

---
 source/RKSweepEngine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 39c513a..81433c3 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -342,6 +342,11 @@ static void *rayGatherer(void *in) {
     engine->state |= RKEngineStateWantActive;
     engine->state ^= RKEngineStateActivating;
 
+    // Rays of an earlier run are no longer ours to release
+    for (p = 0; p < RKSweepScratchSpaceDepth; p++) {
+        engine->scratchSpaces[p].rayCount = 0;
+    }
+
     RKBaseProductList momentList = engine->baseProductList;
     const int productCount = __builtin_popcount(momentList);
     for (p = 0; p < productCount; p++) {
-- 
2.43.0


From af4b284f8001b6848b18d03a62153f283b76cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:05 +0000
Subject: [PATCH 52/54] fix: the latest ray is none when no ray is ready

---
 source/RKCommandCenter.c | 2 +-
 source/RKRadar.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index f7f118f..b75b2b9 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -594,7 +594,7 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtZ) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
-            if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
+            if (ray && (user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
                 user->streamsInProgress = RKStreamASCIIArtZ;
                 user->asciiArtStride = ray->header.gateCount / (user->terminalSize.ws_col - 20);
                 user->rayIndex = endIndex;
diff --git a/source/RKRadar.c b/source/RKRadar.c
index d424928..bc31162 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3016,7 +3016,7 @@ RKRay *RKGetLatestRayIndex(RKRadar *radar, uint32_t *index) {
         *index = RKPreviousModuloS(*index, radar->desc.rayBufferDepth);
         ray = RKGetRayFromBuffer(radar->rays, *index);
     }
-    if (k == radar->desc.rayBufferDepth) {
+    if (!(ray->header.s & RKRayStatusReady)) {
         ray = NULL;
     }
     return ray;
-- 
2.43.0


From 3d8477d296896e52c76f65984a2e57ab2a3acbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:11 +0000
Subject: [PATCH 53/54] fix: the health engine leaves the slots of a silent
 node to the node, and checks for room

---
 source/RKHealthEngine.c | 55 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 2de7456..7b35284 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -32,6 +32,8 @@ static void *healthConsolidator(void *_in) {
 
     uint32_t *indices = (uint32_t *)malloc(desc->healthNodeCount * sizeof(uint32_t));
     memset(indices, 0xFF, desc->healthNodeCount * sizeof(uint32_t));
+    RKHealth **reports = (RKHealth **)calloc(desc->healthNodeCount, sizeof(RKHealth *));
+    RKHealth *copies = (RKHealth *)calloc(desc->healthNodeCount, sizeof(RKHealth));
 
 	// Update the engine state
 	engine->state |= RKEngineStateWantActive;
@@ -100,8 +102,30 @@ static void *healthConsolidator(void *_in) {
         while (engine->state & RKEngineStateWantActive) {
             allTrue = true;
             for (j = 0; j < desc->healthNodeCount; j++) {
+                reports[j] = NULL;
                 if (engine->healthNodes[j].active) {
-                    allTrue &= engine->healthNodes[j].healths[indices[j]].flag == RKHealthFlagReady;
+                    RKHealth *h0 = &engine->healthNodes[j].healths[indices[j]];
+                    if (h0->flag == RKHealthFlagReady) {
+                        reports[j] = h0;
+                    } else if (j > 0 && s >= 10) {
+                        // Waited too long. This node has been disconnected, use a copy of the latest reading, set all enum to old
+                        // The slot itself is left to the node, which may be filling it in right now
+                        if (s == 10) {
+                            RKLog("%s Replacing enum in node %d @ %d ...\n", engine->name, j, indices[j]);
+                        }
+                        n = RKPreviousModuloS(indices[j], desc->healthBufferDepth);
+                        if (!(engine->healthNodes[j].healths[n].flag & RKHealthFlagReady)) {
+                            n = RKPreviousModuloS(n, desc->healthBufferDepth);
+                        }
+                        reports[j] = &copies[j];
+                        reports[j]->string[0] = '\0';
+                        if (engine->healthNodes[j].healths[n].flag & RKHealthFlagReady) {
+                            strcpy(reports[j]->string, engine->healthNodes[j].healths[n].string);
+                            RKReplaceAllValuesOfKey(reports[j]->string, "Enum", RKStatusEnumOld);
+                        }
+                    } else {
+                        allTrue = false;
+                    }
                 }
             }
             if (allTrue) {
@@ -109,22 +133,6 @@ static void *healthConsolidator(void *_in) {
             } else {
                 usleep(100000);
                 if (++s == 10) {
-                    // Waited too long
-                    for (j = 1; j < desc->healthNodeCount; j++) {
-                        if (engine->healthNodes[j].active && engine->healthNodes[j].healths[indices[j]].flag != RKHealthFlagReady) {
-                            RKLog("%s Replacing enum in node %d @ %d ...\n", engine->name, j, indices[j]);
-                            // This node has been disconnected, duplicate the latest reading, set all enum to old
-                            n = indices[j];
-                            RKHealth *h0 = &engine->healthNodes[j].healths[n];
-                            n = RKPreviousModuloS(n, desc->healthBufferDepth);
-                            RKHealth *h1 = &engine->healthNodes[j].healths[n];
-                            // Copy over the previous health to current health, set all enums to old
-                            h0->i += desc->healthBufferDepth;
-                            strcpy(h0->string, h1->string);
-                            RKReplaceAllValuesOfKey(h0->string, "Enum", RKStatusEnumOld);
-                            h0->flag = RKHealthFlagReady;
-                        }
-                    }
                     if (engine->verbose > 1) {
                         n = indices[0];
                         i = sprintf(string, "ready = [%x", engine->healthNodes[0].healths[n].flag);
@@ -164,13 +172,16 @@ static void *healthConsolidator(void *_in) {
         // Combine all the active JSON strings
         i = sprintf(string, "{");
         for (j = 0; j < desc->healthNodeCount; j++) {
-            n = indices[j];
-            if (engine->healthNodes[j].active && strlen(engine->healthNodes[j].healths[n].string) > 6) {   // {"k":0} is at least 7 chars
-                i += sprintf(string + i, "%s", engine->healthNodes[j].healths[n].string + 1);              // Ignore the first "{"
+            if (reports[j] && strlen(reports[j]->string) > 6) {                                            // {"k":0} is at least 7 chars
+                if (i + strlen(reports[j]->string) + 512 > RKMaximumStringLength) {
+                    RKLog("%s Warning. No room for the report from node %d.\n", engine->name, j);
+                    continue;
+                }
+                i += sprintf(string + i, "%s", reports[j]->string + 1);                                    // Ignore the first "{"
                 i -= RKStripTail(string);                                                                  // Strip away white spaces
                 i--;                                                                                       // Ignore the last "}"
                 i += sprintf(string + i, ", ");                                                            // Get ready to concatenante
-                engine->healthNodes[j].healths[n].flag |= RKHealthFlagUsed;
+                reports[j]->flag |= RKHealthFlagUsed;
             }
         }
 
@@ -287,6 +298,8 @@ static void *healthConsolidator(void *_in) {
         *engine->healthIndex = k;
     }
 
+    free(copies);
+    free(reports);
     free(indices);
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From 055cf8e7d8327f0118585667283008a4bfb2a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:35 +0000
Subject: [PATCH 54/54] fix: replacing an enum by a shorter or much longer one
 leaves no digits behind

---
 source/RKHealthEngine.c |  2 ++
 source/RKMisc.c         | 20 +++++---------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 7b35284..fda7bd7 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -228,6 +228,7 @@ static void *healthConsolidator(void *_in) {
         if (isnan(heading) || (desc->initFlags & RKInitFlagIgnoreHeading) || (desc->initFlags & RKInitFlagIgnoreGPS)) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "heading", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"Heading Override\":{\"Value\":true,\"Enum\":0}, "
@@ -252,6 +253,7 @@ static void *healthConsolidator(void *_in) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "latitude", RKStatusEnumNotWired);
             RKReplaceEnumOfKey(string, "longitude", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with latitude, longitude and heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"GPS Override\":{\"Value\":true,\"Enum\":0}, "
diff --git a/source/RKMisc.c b/source/RKMisc.c
index db7b775..4933afa 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -301,7 +301,6 @@ void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
     int k;
     char *s = strstr(string, key);
     char *e;
-    size_t l;
     char valueString[32];
     while (s != NULL) {
         s += strlen(key);
@@ -325,16 +324,12 @@ void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
             fprintf(stderr, "RKReplaceAllValuesOfKey() encountered an expected results from sprintf().\n");
             return;
         }
-        if (e - s < k) {
-            // Need to add another character
-            l = strlen(e);
-            memmove(e + k - 1, e, l);
-            *(e + k + -1 + l) = '\0';
-        }
+        // The rest moves so that the new value takes exactly the place of the old one
+        memmove(s + k, e, strlen(e) + 1);
         memcpy(s, valueString, k);
         //strncpy(s, valueString, k);
         //snprintf(s, k, "%s", valueString) < 0 ? abort() : (void)0;
-        s = strstr(e, key);
+        s = strstr(s + k, key);
     }
 }
 
@@ -342,7 +337,6 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
     int k;
     char *s = strcasestr(string, key);
     char *e;
-    size_t l;
     char valueString[32];
     if (s == NULL) {
         return;
@@ -373,12 +367,8 @@ void RKReplaceEnumOfKey(char *string, const char *key, int value) {
         fprintf(stderr, "RKReplaceEnumOfKey() encountered an expected results from sprintf().\n");
     }
     //printf("s = %p   e = %p   valueString = %s   k = %d ==? %d\n", s, e, valueString, (int)(e - s), k);
-    if (e - s < k) {
-        // Need to add another character
-        l = strlen(e);
-        memmove(e + k - 1, e, l);
-        *(e + k + -1 + l) = '\0';
-    }
+    // The rest moves so that the new value takes exactly the place of the old one
+    memmove(s + k, e, strlen(e) + 1);
     memcpy(s, valueString, k);
 }
 
-- 
2.43.0

