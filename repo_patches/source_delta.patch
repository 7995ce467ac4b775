From 14526d118dace14041a33bdd47afa8f462d41126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 01/57] fix: DLS list parsers must stop at the end of their
 LIST chunk

The size of a LIST chunk includes its 4-byte form type, so the parsers ran 4
bytes past the end of every nested list: a collection whose wave pool is the
last chunk failed with EAS_EOF, and the last region of an instrument picked
up the instrument's own articulation list.
---
 arm-wt-22k/lib_src/eas_mdls.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1595b60..b35d89b 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -942,7 +942,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     pos = chunkPos;
-    endChunk = pos + size;
+    endChunk = pos + size - 4;
     while (pos < endChunk)
     {
         chunkPos = pos;
@@ -1435,7 +1435,7 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             }
         }
 
-        if ((result = Parse_ins(pDLSData, chunkPos + 12, size)) != EAS_SUCCESS)
+        if ((result = Parse_ins(pDLSData, chunkPos + 12, size - 4)) != EAS_SUCCESS)
             return result;
     }
 
@@ -1501,17 +1501,17 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             case CHUNK_LRGN:
                 lrgnPos = chunkPos + 12;
-                lrgnSize = size;
+                lrgnSize = size - 4;
                 break;
 
             default:
@@ -1688,7 +1688,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
                     return EAS_ERROR_DATA_INCONSISTENCY;
                 }
             }
-            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size, artIndex)) != EAS_SUCCESS)
+            if ((result = Parse_rgn(pDLSData, chunkPos + 12, size - 4, artIndex)) != EAS_SUCCESS)
                 return result;
             regionCount++;
         }
@@ -1778,12 +1778,12 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
 
             case CHUNK_LART:
                 lartPos = chunkPos + 12;
-                lartSize = size;
+                lartSize = size - 4;
                 break;
 
             case CHUNK_LAR2:
                 lar2Pos = chunkPos + 12;
-                lar2Size = size;
+                lar2Size = size - 4;
                 break;
 
             default:
-- 
2.43.0


From c0b17956adafae5da60ea97f3fc8c4bf35d3ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 02/57] fix: rewinding an SMF must restore the initial tempo
 and leading rest

SMF_Reset (used by seek, repeat and the metadata scan) left the tempo of the
last tempo event in force, kept the setup bar flags and forgot the first delta
time, so after a rewind events played at wrong times.
---
 arm-wt-22k/lib_src/eas_smf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4f8db9d..8805a2b 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -491,6 +491,10 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     /* reset time to zero */
     pSMFData->time = 0;
 
+    /* back to the default tempo, and forget what was learned about the setup bar */
+    pSMFData->flags &= ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
+    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
 
@@ -520,6 +524,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         }
     }
 
+    /* update the time of the next event */
+    if (pSMFData->nextStream)
+        SMF_UpdateTime(pSMFData, pSMFData->nextStream->ticks);
 
     pSMFData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
-- 
2.43.0


From b84e9b40586b7971d94b2dd779e02f450b809ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 03/57] fix: pause and resume requests must not stay pending
 for ever without JET

Only the JET build clears STREAM_FLAGS_PAUSE and STREAM_FLAGS_RESUME. Without it
a paused stream reported PAUSING for ever, a stream resumed once accepted pause
in the stopping and stopped states (and then failed with a format error when
resumed), and a seek in a paused stream started playback.
---
 arm-wt-22k/lib_src/eas_public.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0b183c..86208a4 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2021,6 +2021,7 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
     EAS_RESULT result;
     EAS_U32 requestedTime;
     EAS_STATE state;
+    EAS_BOOL paused;
 
     /* get pointer to parser function table */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
@@ -2060,9 +2061,12 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
         }
     }
 
-    /* if we were paused and not going to resume, set pause request flag */
-    if (((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED)) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))
+    /* if we were paused and not going to resume, stay paused at the new location */
+    paused = ((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED)) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0);
+#ifdef JET_INTERFACE
+    if (paused)
         pStream->streamFlags |= STREAM_FLAGS_PAUSE;
+#endif
 
     /* reset the synth and parser */
     if ((result = (*pParserModule->pfReset)(pEASData, pStream->handle)) != EAS_SUCCESS)
@@ -2073,6 +2077,17 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
     if ((result = EAS_ParseEvents(pEASData, pStream, requestedTime << 8, eParserModeLocate)) != EAS_SUCCESS)
         return result;
 
+#ifndef JET_INTERFACE
+    /* the parser was reset to the ready state, pause it again unless the end of the file was reached */
+    if (paused && (pParserModule->pfPause != NULL))
+    {
+        if ((result = (*pParserModule->pfState)(pEASData, pStream->handle, &state)) != EAS_SUCCESS)
+            return result;
+        if (state <= EAS_STATE_PLAY)
+            return pParserModule->pfPause(pEASData, pStream->handle);
+    }
+#endif
+
     return EAS_SUCCESS;
 }
 
@@ -2170,8 +2185,10 @@ EAS_PUBLIC EAS_RESULT EAS_Pause (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
         /* clear resume flag */
         pStream->streamFlags &= ~STREAM_FLAGS_RESUME;
 
+#ifdef JET_INTERFACE
         /* set pause flag */
         pStream->streamFlags |= STREAM_FLAGS_PAUSE;
+#endif
 
         /* pause the stream */
         if (pParserModule->pfPause)
@@ -2226,8 +2243,10 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
         /* clear pause flag */
         pStream->streamFlags &= ~STREAM_FLAGS_PAUSE;
 
+#ifdef JET_INTERFACE
         /* set resume flag */
         pStream->streamFlags |= STREAM_FLAGS_RESUME;
+#endif
 
         /* resume the stream */
         if (pParserModule->pfResume)
-- 
2.43.0


From 74e7f55fa494e17dc7f74c944f75beb4e62ad6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 04/57] fix: start every note at the first sample of its wave

The interpolation fraction of whatever the voice played before leaked into
the next note, so the same music rendered differently depending on history.
---
 arm-wt-22k/lib_src/eas_dlssynth.c | 1 +
 arm-wt-22k/lib_src/eas_wtsynth.c  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_dlssynth.c b/arm-wt-22k/lib_src/eas_dlssynth.c
index a07262c..cefc118 100644
--- a/arm-wt-22k/lib_src/eas_dlssynth.c
+++ b/arm-wt-22k/lib_src/eas_dlssynth.c
@@ -345,6 +345,7 @@ EAS_RESULT DLS_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOIC
     pWTVoice->filter.z2 = 0;
 
     /* initialize the oscillator */
+    pWTVoice->phaseFrac = 0;
     pWTVoice->phaseAccum = (EAS_U32) pSynth->pDLS->pDLSSamples + pSynth->pDLS->pDLSSampleOffsets[pDLSRegion->wtRegion.waveIndex];
     if (pDLSRegion->wtRegion.region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED)
     {
diff --git a/arm-wt-22k/lib_src/eas_wtsynth.c b/arm-wt-22k/lib_src/eas_wtsynth.c
index ea1fe78..fb8e1d4 100644
--- a/arm-wt-22k/lib_src/eas_wtsynth.c
+++ b/arm-wt-22k/lib_src/eas_wtsynth.c
@@ -382,6 +382,9 @@ static EAS_RESULT WT_StartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNT
     pWTVoice->filter.z2 = 0;
 #endif
 
+    /* start the wave on a sample boundary, whatever this voice played before */
+    pWTVoice->phaseFrac = 0;
+
     /* if this wave is to be generated using noise generator */
     if (pRegion->region.keyGroupAndFlags & REGION_FLAG_USE_WAVE_GENERATOR)
     {
-- 
2.43.0


From b4914252423c39741f24adadc1c23282261e5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 05/57] fix: calls on interactive MIDI streams must not use the
 missing file parser

Settings and queries on an interactive stream, and sharing the synthesizer of
a stream that has none yet, dereferenced NULL. They now report an error.
---
 arm-wt-22k/lib_src/eas_public.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 86208a4..51a2be1 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -103,7 +103,7 @@ EAS_RESULT EAS_SetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfSetData)
+    if ((pParserModule != NULL) && pParserModule->pfSetData)
         return (*pParserModule->pfSetData)(pEASData, pStream->handle, param, value);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -125,7 +125,7 @@ EAS_RESULT EAS_GetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfGetData)
+    if ((pParserModule != NULL) && pParserModule->pfGetData)
         return (*pParserModule->pfGetData)(pEASData, pStream->handle, param, pValue);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -146,7 +146,7 @@ EAS_BOOL EAS_StreamReady (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
     EAS_STATE state;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS)
+    if ((pParserModule == NULL) || (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS))
         return EAS_FALSE;
     return (state < EAS_STATE_OPEN);
 }
@@ -1566,8 +1566,15 @@ EAS_PUBLIC EAS_RESULT EAS_OpenMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE *
     {
         EAS_I32 value;
         result = EAS_GetStreamParameter(pEASData, streamHandle, PARSER_DATA_SYNTH_HANDLE, &value);
-        pMIDIStream->pSynth = (S_SYNTH*) value;
-        VMIncRefCount(pMIDIStream->pSynth);
+
+        /* the other stream must have a synthesizer to share */
+        if ((result == EAS_SUCCESS) && (value == 0))
+            result = EAS_ERROR_INVALID_PARAMETER;
+        if (result == EAS_SUCCESS)
+        {
+            pMIDIStream->pSynth = (S_SYNTH*) value;
+            VMIncRefCount(pMIDIStream->pSynth);
+        }
     }
     if (result != EAS_SUCCESS)
     {
-- 
2.43.0


From 72b563d2456c1827d1d38daf61bccd9c82f95fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 06/57] fix: EAS_Shutdown must close interactive MIDI streams
 too

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 51a2be1..21df83f 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -490,6 +490,10 @@ EAS_PUBLIC EAS_RESULT EAS_Shutdown (EAS_DATA_HANDLE pEASData)
                 reportResult = result;
             }
         }
+
+        /* interactive MIDI streams have no parser */
+        else if (pEASData->streams[i].handle)
+            EAS_CloseMIDIStream(pEASData, &pEASData->streams[i]);
     }
 
     /* shutdown PCM engine */
-- 
2.43.0


From 689b566da3209bac52be2e2171ee02abd0f2ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 07/57] fix: opening an SMF without memory must fail instead of
 writing to NULL

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 8805a2b..6f12768 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -141,7 +141,8 @@ EAS_RESULT SMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle,
     else
     {
         pSMFData = EAS_HWMalloc(pEASData->hwInstData, sizeof(S_SMF_DATA));
-        EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
+        if (pSMFData)
+            EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
     }
     if (!pSMFData)
         return EAS_ERROR_MALLOC_FAILED;
-- 
2.43.0


From ba32017f947beefceece08e4f2bc5f40df8d4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 08/57] fix: a failed EAS_Prepare must give back what it took

The synthesizer, duplicated file handles and track table of a failed attempt
were left behind: a second attempt leaked them or used a NULL file handle.
---
 arm-wt-22k/lib_src/eas_smf.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 6f12768..503ac2d 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -195,7 +195,30 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* parse the file header and setup the individual stream parsers */
     if ((result = SMF_ParseHeader(pEASData->hwInstData, pSMFData)) != EAS_SUCCESS)
+    {
+        EAS_I32 i;
+
+        /* give back everything but the file, so that the stream can be prepared again */
+        for (i = 0; i < pSMFData->numStreams; i++)
+        {
+            if (pSMFData->streams[i].fileHandle == NULL)
+                continue;
+            if (pSMFData->fileHandle == NULL)
+                pSMFData->fileHandle = pSMFData->streams[i].fileHandle;
+            else
+                EAS_HWCloseFile(pEASData->hwInstData, pSMFData->streams[i].fileHandle);
+            pSMFData->streams[i].fileHandle = NULL;
+        }
+        if (!pEASData->staticMemoryModel && pSMFData->streams)
+        {
+            EAS_HWFree(pEASData->hwInstData, pSMFData->streams);
+            pSMFData->streams = NULL;
+        }
+        pSMFData->numStreams = 0;
+        VMMIDIShutdown(pEASData, pSMFData->pSynth);
+        pSMFData->pSynth = NULL;
         return result;
+    }
 
     /* ready to play */
     pSMFData->state = EAS_STATE_READY;
-- 
2.43.0


From 7465d2e636ee3392f0fa5be1b7b3d516a5c643d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 09/57] fix: EAS_Init must release what it allocated when it
 fails

---
 arm-wt-22k/lib_src/eas_public.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 21df83f..37d0ae3 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -384,6 +384,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if (!pEASData)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Failed to allocate EAS library memory\n"); */ }
+        EAS_HWShutdown(pHWInstData);
         return EAS_ERROR_MALLOC_FAILED;
     }
 
@@ -409,6 +410,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
         if ((result = (*pEASData->pMetricsModule->pfInit)(pEASData, &pEASData->pMetricsData)) != EAS_SUCCESS)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld initializing metrics module\n", result); */ }
+            EAS_Shutdown(pEASData);
             return result;
         }
     }
@@ -416,12 +418,16 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
 
     /* initailize the voice manager & synthesizer */
     if ((result = VMInitialize(pEASData)) != EAS_SUCCESS)
+    {
+        EAS_Shutdown(pEASData);
         return result;
+    }
 
     /* initialize mix engine */
     if ((result = EAS_MixEngineInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld starting up mix engine\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
@@ -434,6 +440,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
             if ((result = (*pEASData->effectsModules[module].effect->pfInit)(pEASData, &pEASData->effectsModules[module].effectData)) != EAS_SUCCESS)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Initialization of effects module %d returned %d\n", module, result); */ }
+                EAS_Shutdown(pEASData);
                 return result;
             }
         }
@@ -443,6 +450,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if ((result = EAS_PEInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "EAS_PEInit failed with error code %ld\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
-- 
2.43.0


From 3af10b9c2836490370ccc5a94c23ead161d57873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 10/57] fix: effect parameter calls must refuse negative module
 numbers

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 37d0ae3..fa05c41 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2302,7 +2302,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 *pValue)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
@@ -2337,7 +2337,7 @@ EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module
 EAS_PUBLIC EAS_RESULT EAS_SetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 value)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
-- 
2.43.0


From 88f1e87e8f52b73038241375b5399769939b75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 11/57] fix: text events must not end a track when the metadata
 buffer has no room

---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 503ac2d..097f7b9 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -950,7 +950,7 @@ static EAS_RESULT SMF_ParseMetaEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData
         else if (c == SMF_META_LYRIC)
             metaType = EAS_METADATA_LYRIC;
 
-        if (metaType != EAS_METADATA_UNKNOWN)
+        if ((metaType != EAS_METADATA_UNKNOWN) && (pSMFData->metadata.bufferSize > 0))
         {
             readLen = pSMFData->metadata.bufferSize - 1;
             if ((EAS_I32) len < readLen)
-- 
2.43.0


From e22f9618cd60e099ae3708f5ebab27627f441c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 12/57] fix: the sustain pedal of a second stream must use its
 own channel

VMCatchNotesForSustainPedal indexed the channel array with the virtual
synthesizer number still in the channel number.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 847ce6c..ceb9bf9 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1220,7 +1220,7 @@ void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U
         if (channel == pVoiceMgr->voices[voiceNum].channel)
         {
             if (eVoiceStateRelease == pVoiceMgr->voices[voiceNum].voiceState)
-                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[GET_CHANNEL(channel)], GetAdjustedVoiceNum(voiceNum));
         }
     }
 }
-- 
2.43.0


From c04bd0708bb4931139e4ae9e185bbd22767c6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 13/57] fix: free voices must not look like voices of the
 second stream

The number of the unassigned channel was channel 0 of virtual synthesizer
1, so a note with the default key number on that channel took a free
voice for one of its own and lost count of the active voices.
---
 arm-wt-22k/lib_src/eas_synth.h    | 2 +-
 arm-wt-22k/lib_src/eas_voicemgt.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_synth.h b/arm-wt-22k/lib_src/eas_synth.h
index 6274b7d..bcd29ea 100644
--- a/arm-wt-22k/lib_src/eas_synth.h
+++ b/arm-wt-22k/lib_src/eas_synth.h
@@ -94,7 +94,7 @@
 #define DEFAULT_SYNTH_VOICES    MAX_SYNTH_VOICES
 
 /* use the following values to specify unassigned channels or voices */
-#define UNASSIGNED_SYNTH_CHANNEL    NUM_SYNTH_CHANNELS
+#define UNASSIGNED_SYNTH_CHANNEL    (MAX_VIRTUAL_SYNTHESIZERS * NUM_SYNTH_CHANNELS)
 #define UNASSIGNED_SYNTH_VOICE      MAX_SYNTH_VOICES
 
 
diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ceb9bf9..0eeb75e 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2898,12 +2898,12 @@ EAS_I32 VMAddSamples (S_VOICE_MGR *pVoiceMgr, EAS_I32 *pMixBuffer, EAS_I32 numSa
         if ((pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen) && (pVoiceMgr->voices[voiceNum].gain <= 0))
             VMRetargetStolenVoice(pVoiceMgr, voiceNum);
 
-        /* get pointer to virtual synth */
-        pSynth = pVoiceMgr->pSynth[pVoiceMgr->voices[voiceNum].channel >> 4];
-
         /* synthesize active voices */
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateFree)
         {
+            /* get pointer to virtual synth */
+            pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoiceMgr->voices[voiceNum].channel)];
+
             done = GetSynthPtr(voiceNum)->pfUpdateVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], GetAdjustedVoiceNum(voiceNum), pMixBuffer, numSamples);
             voicesRendered++;
 
-- 
2.43.0


From 793fa91160852cae144d099d557d1164b3cab1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 14/57] fix: resetting a synthesizer must keep the count of
 active voices

A voice that one stream steals from another counts for the old stream
until it restarts. Resetting or closing either stream in between lost
count of it or left a voice that belongs to a stream that is gone.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 0eeb75e..cd597f8 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -118,6 +118,10 @@ const S_FRAME_INTERFACE *const pFrameInterface = &fmFrameInterface;
 #error "Undefined architecture option"
 #endif
 
+/* local prototypes */
+static void VMFreeVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOICE *pVoice);
+static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum);
+
 /*----------------------------------------------------------------------------
  * inline functions
  *----------------------------------------------------------------------------
@@ -446,11 +450,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
 
     /* force voices to off state - may cause audio artifacts */
     if (force)
-    {
-        pVoiceMgr->activeVoices -= pSynth->numActiveVoices;
-        pSynth->numActiveVoices = 0;
         VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
-    }
     else
         VMMuteAllVoices(pVoiceMgr, pSynth);
 
@@ -585,21 +585,25 @@ void VMResetControllers (S_SYNTH *pSynth)
 */
 void VMInitializeAllVoices (S_VOICE_MGR *pVoiceMgr, EAS_INT vSynthNum)
 {
+    S_SYNTH_VOICE *pVoice;
     EAS_INT i;
+    EAS_U8 nextChannel;
 
     /* initialize the voice manager parameters */
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        if (pVoiceMgr->voices[i].voiceState != eVoiceStateStolen)
-        {
-            if (GET_VSYNTH(pVoiceMgr->voices[i].channel) == vSynthNum)
-                InitVoice(&pVoiceMgr->voices[i]);
-        }
-        else
-        {
-            if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) == vSynthNum)
-                InitVoice(&pVoiceMgr->voices[i]);
-        }
+        pVoice = &pVoiceMgr->voices[i];
+        if (pVoice->voiceState == eVoiceStateFree)
+            continue;
+
+        /* a stolen voice counts for its old synth until it is retargeted */
+        nextChannel = (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+        if (GET_VSYNTH(nextChannel) == vSynthNum)
+            VMFreeVoice(pVoiceMgr, pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)], pVoice);
+
+        /* voice stolen by another synth, start its new note without the ramp */
+        else if (GET_VSYNTH(pVoice->channel) == vSynthNum)
+            VMRetargetStolenVoice(pVoiceMgr, i);
     }
 }
 
-- 
2.43.0


From 296d24f599b755b687f922fae4327943f4329c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 15/57] fix: deferred note-offs must only stop voices of their
 own stream

VMDeferredStopNote stopped the waiting notes of every stream and looked
up their sustain pedal in the stream it was called for.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index cd597f8..c4c5e31 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1047,6 +1047,12 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     {
         if (pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
         {
+            /* only stop voices on this synth */
+            channel = (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen) ?
+                pVoiceMgr->voices[voiceNum].nextChannel : pVoiceMgr->voices[voiceNum].channel;
+            if (GET_VSYNTH(channel) != pSynth->vSynthNum)
+                continue;
+
             /* check if this voice was stolen */
             if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen)
             {
-- 
2.43.0


From 3509bdc75344542fe9b456a9a1044c391be3b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 16/57] fix: lowering the polyphony of a stream must mute its
 own surplus voices

VMSetPolyphony looked at the channel of the next note, which only a
stolen voice has, so it muted no voice at all.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index c4c5e31..4b52153 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -190,6 +190,18 @@ void InitVoice (S_SYNTH_VOICE *pVoice)
     pVoice->voiceState = DEFAULT_VOICE_STATE;
 }
 
+/*----------------------------------------------------------------------------
+ * VMVoiceChannel()
+ *----------------------------------------------------------------------------
+ * Returns the channel that owns the voice, for a stolen voice that is the
+ * channel of the note it is about to start
+ *----------------------------------------------------------------------------
+*/
+static EAS_U8 VMVoiceChannel (const S_SYNTH_VOICE *pVoice)
+{
+    return (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+}
+
 /*----------------------------------------------------------------------------
  * IncVoicePoolCount()
  *----------------------------------------------------------------------------
@@ -3371,7 +3383,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
         /* this synth? */
-        if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) != pSynth->vSynthNum)
+        if (GET_VSYNTH(VMVoiceChannel(&pVoiceMgr->voices[i])) != pSynth->vSynthNum)
             continue;
 
         /* is voice active? */
@@ -3392,8 +3404,12 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         {
             pVoice = &pVoiceMgr->voices[i];
 
+            /* ignore free and muting voices */
+            if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
+                continue;
+
             /* this synth? */
-            if (GET_VSYNTH(pVoice->nextChannel) != pSynth->vSynthNum)
+            if (GET_VSYNTH(VMVoiceChannel(pVoice)) != pSynth->vSynthNum)
                 continue;
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
@@ -3416,7 +3432,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* is this the best choice so far? */
-- 
2.43.0


From f5256c16b9a66eda8fba708630ca61c7f098579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 17/57] fix: a stream at its polyphony limit must steal from
 its own voices

The note that arrives at the limit of its stream could take a voice of
another stream, or one that is already muting, and so exceed the limit.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 4b52153..4a8720a 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2042,6 +2042,26 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
     EAS_U8 currNote;
     EAS_I32 bestPriority;
     EAS_I32 currentPriority;
+    EAS_INT numVoices;
+    EAS_INT numSynthVoices;
+    EAS_BOOL synthFull;
+    EAS_BOOL full;
+
+    /* count the voices that are not muting */
+    numVoices = numSynthVoices = 0;
+    for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+    {
+        pCurrVoice = &pVoiceMgr->voices[voiceNum];
+        if ((pCurrVoice->voiceState == eVoiceStateFree) || (pCurrVoice->voiceState == eVoiceStateMuting))
+            continue;
+        numVoices++;
+        if (GET_VSYNTH(VMVoiceChannel(pCurrVoice)) == pSynth->vSynthNum)
+            numSynthVoices++;
+    }
+
+    /* the new note must not take the synth or the voice manager over its polyphony */
+    synthFull = (pSynth->maxPolyphony != 0) && (numSynthVoices >= pSynth->maxPolyphony);
+    full = synthFull || (numVoices >= pVoiceMgr->maxPolyphony);
 
     /* determine which voice to steal */
     bestPriority = 0;
@@ -2069,6 +2089,10 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
             currNote = pCurrVoice->note;
         }
 
+        /* ignore voices that would not make room for the new note */
+        if ((synthFull && (pCurrSynth != pSynth)) || (full && (pCurrVoice->voiceState == eVoiceStateMuting)))
+            continue;
+
         /* ignore voices that are higher priority */
         if (pSynth->priority > pCurrSynth->priority)
             continue;
-- 
2.43.0


From 8f3fc6a02b5c0cf7346b5d36246aed239f9c6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 18/57] fix: all notes off must take the muted voices out of
 their pool

The pool count grew with every voice muted and wrapped to zero, which
switched off key groups and the limit on equal notes.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 4a8720a..fa12d8b 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1021,8 +1021,7 @@ void VMAllNotesOff (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
                 ((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))
             {
                 /* this voice is assigned to the requested channel */
-                GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
-                pVoice->voiceState = eVoiceStateMuting;
+                VMMuteVoice(pVoiceMgr, voiceNum);
             }
         }
     }
-- 
2.43.0


From be1a61cc2da13f34487b9ef00f0c3d23ad6a3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 19/57] fix: loading a DLS collection into a stream must
 release the previous one

The stream took a second reference to the new collection and dropped
none to the old, so both leaked, and notes that were sounding went on
reading the old collection through the new one.
---
 arm-wt-22k/lib_src/eas_public.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index fa05c41..0fdee2f 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -183,10 +183,18 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #ifdef DLS_SYNTHESIZER
         case PARSER_DATA_DLS_COLLECTION:
             {
-                EAS_RESULT result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
+                S_DLS *pOldDLS = pSynth->pDLS;
+                EAS_RESULT result;
+
+                /* no voice may go on playing from the old collection */
+                if (pOldDLS != NULL)
+                    VMInitializeAllVoices(pEASData->pVoiceMgr, pSynth->vSynthNum);
+
+                result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
                 if (result == EAS_SUCCESS)
                 {
                     DLSAddRef((S_DLS*) value);
+                    DLSCleanup(pEASData->hwInstData, pOldDLS);
                     VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
                 }
                 return result;
@@ -2511,8 +2519,13 @@ EAS_PUBLIC EAS_RESULT EAS_LoadDLSCollection (EAS_DATA_HANDLE pEASData, EAS_HANDL
 
         /* if a stream pStream is specified, point it to the DLS collection */
         if (pStream)
+        {
             result = EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_DLS_COLLECTION, (EAS_I32) pDLS);
 
+            /* the stream holds a reference of its own */
+            DLSCleanup(pEASData->hwInstData, pDLS);
+        }
+
         /* global DLS load */
         else
             result = VMSetGlobalDLSLib(pEASData, pDLS);
-- 
2.43.0


From f4eb20c245c934f67c226cbad38916c043de0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 20/57] fix: a DLS file with a bad wave must not keep its file
 handle

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index b35d89b..1e38f29 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -877,7 +877,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* get the offset to the wave and make sure it is within the wtbl chunk */
         if ((result = EAS_HWGetDWord(pDLSData->hwInstData, tempFile, &temp, EAS_FALSE)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
         if (temp > (EAS_U32) wtblSize)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Ptbl offset exceeds size of wtbl\n"); */ }
@@ -887,7 +890,10 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* parse the wave */
         if ((result = Parse_wave(pDLSData, wtblPos +(EAS_I32)  temp, waveIndex)) != EAS_SUCCESS)
+        {
+            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
             return result;
+        }
     }
 
     /* close the temporary handle and return */
-- 
2.43.0


From ffa40a2163d8b4527cf00f1019775c5b8dc6e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 21/57] fix: a DLS conditional chunk must be evaluated up to
 its own end

Parse_cdl never counted what it read, so every file with a cdl chunk was
read on to its end and refused. The identifiers it compares also had
uninitialized padding.
---
 arm-wt-22k/lib_src/eas_mdls.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1e38f29..b81d037 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2303,6 +2303,9 @@ static EAS_RESULT ReadDLSID (SDLS_SYNTHESIZER_DATA *pDLSData, DLSID *pDLSID)
     EAS_RESULT result;
     EAS_I32 n;
 
+    /* the whole structure is compared, including any padding */
+    EAS_HWMemSet(pDLSID, 0, sizeof(DLSID));
+
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data1, EAS_FALSE)) != EAS_SUCCESS)
         return result;
     if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &pDLSID->Data2, EAS_FALSE)) != EAS_SUCCESS)
@@ -2338,11 +2341,12 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
     stackPtr = -1;
     *pValue = 0;
     x = 0;
-    while (size)
+    while (size > 0)
     {
         /* read the opcode */
         if ((result = EAS_HWGetWord(pDLSData->hwInstData, pDLSData->fileHandle, &opcode, EAS_FALSE)) != EAS_SUCCESS)
             return result;
+        size -= 2;
 
         /* handle binary opcodes */
         if (opcode <= DLS_CDL_EQ)
@@ -2414,12 +2418,14 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
         {
             if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &x, EAS_FALSE)) != EAS_SUCCESS)
                 return result;
+            size -= 4;
         }
 
         else if (opcode == DLS_CDL_QUERY)
         {
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
+            size -= 16;
             QueryGUID(&dlsid, &x);
         }
 
@@ -2427,6 +2433,7 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
         {
             if ((result = ReadDLSID(pDLSData, &dlsid)) != EAS_SUCCESS)
                 return result;
+            size -= 16;
             x = QueryGUID(&dlsid, &y);
         }
         else
-- 
2.43.0


From 17d7eccfa498729dd59b5a85726728c1d17e4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 22/57] fix: resetting the controllers must end the notes the
 sustain pedal holds

The pedal was marked as up, but the notes whose note-off it had deferred
were left sounding for ever.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index fa12d8b..564430c 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2379,7 +2379,9 @@ void VMControlChange (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, E
         pChannel->modWheel = DEFAULT_MOD_WHEEL;
         pChannel->expression = DEFAULT_EXPRESSION;
 
-        /* turn the sustain pedal off as default/reset */
+        /* turn the sustain pedal off as default/reset, and end the notes it was holding */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);
         pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
         pChannel->pitchBend = DEFAULT_PITCH_BEND;
 
-- 
2.43.0


From 7e925730bb6bfab5e7f9e0e4cfeb3637f971e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 23/57] fix: selecting a registered parameter must keep its
 whole MSB

The mask dropped the lowest bit of the MSB, so parameters 1/0 to 1/2 were
taken for the pitch bend range and the tunings.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 564430c..68446ec 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2493,7 +2493,7 @@ EAS_RESULT VMUpdateRPNStateMachine (S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 cont
         break;
     case MIDI_CONTROLLER_SELECT_RPN_LSB:
         pChannel->registeredParam =
-            (pChannel->registeredParam & 0x7F00) | value;
+            (pChannel->registeredParam & 0x3F80) | value;
         break;
     case MIDI_CONTROLLER_ENTER_DATA_MSB:
         switch (pChannel->registeredParam)
-- 
2.43.0


From 2f245a12b6f4a50b0858102f4faed5b282b3d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 24/57] fix: loop wrap of a looped wave reads the sample before
 the loop

WT_Interpolate wrapped one sample early, so that each pass played the sample in
front of the loop in place of the last one of the loop. With a loop starting at
the first sample of the wave that is foreign data in front of the wave.
---
 arm-wt-22k/lib_src/eas_wtengine.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wtengine.c b/arm-wt-22k/lib_src/eas_wtengine.c
index dc8d864..c4f819e 100644
--- a/arm-wt-22k/lib_src/eas_wtengine.c
+++ b/arm-wt-22k/lib_src/eas_wtengine.c
@@ -189,6 +189,8 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     EAS_I32 phaseFrac;
     EAS_I32 acc0;
     const EAS_SAMPLE *pSamples;
+    const EAS_SAMPLE *pNext;
+    const EAS_SAMPLE *loopStart;
     const EAS_SAMPLE *loopEnd;
     EAS_I32 samp1;
     EAS_I32 samp2;
@@ -207,6 +209,7 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     }
     pOutputBuffer = pWTIntFrame->pAudioBuffer;
 
+    loopStart = (const EAS_SAMPLE*) pWTVoice->loopStart;
     loopEnd = (const EAS_SAMPLE*) pWTVoice->loopEnd + 1;
     pSamples = (const EAS_SAMPLE*) pWTVoice->phaseAccum;
     /*lint -e{713} truncation is OK */
@@ -214,14 +217,15 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     phaseInc = pWTIntFrame->frame.phaseIncrement;
 
     /* fetch adjacent samples */
+    pNext = (&pSamples[1] < loopEnd) ? &pSamples[1] : loopStart;
 #if defined(_8_BIT_SAMPLES)
     /*lint -e{701} <avoid multiply for performance>*/
     samp1 = pSamples[0] << 8;
     /*lint -e{701} <avoid multiply for performance>*/
-    samp2 = pSamples[1] << 8;
+    samp2 = *pNext << 8;
 #else
     samp1 = pSamples[0];
-    samp2 = pSamples[1];
+    samp2 = *pNext;
 #endif
 
     while (numSamples--) {
@@ -249,21 +253,21 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             pSamples +=  nextSamplePhaseInc;
             phaseFrac = phaseFrac & PHASE_FRAC_MASK;
 
-            /* decrementing pSamples by entire buffer length until second pSample is within */
-            /* loopEnd                                                                      */
-            while (&pSamples[1] >= loopEnd) {
-                pSamples -= (loopEnd - (const EAS_SAMPLE*)pWTVoice->loopStart);
+            /* decrementing pSamples by entire loop length until it is within the loop */
+            while (pSamples >= loopEnd) {
+                pSamples -= (loopEnd - loopStart);
             }
 
-            /* fetch new samples */
+            /* fetch new samples, the last sample of the loop is followed by the first one */
+            pNext = (&pSamples[1] < loopEnd) ? &pSamples[1] : loopStart;
 #if defined(_8_BIT_SAMPLES)
             /*lint -e{701} <avoid multiply for performance>*/
             samp1 = pSamples[0] << 8;
             /*lint -e{701} <avoid multiply for performance>*/
-            samp2 = pSamples[1] << 8;
+            samp2 = *pNext << 8;
 #else
             samp1 = pSamples[0];
-            samp2 = pSamples[1];
+            samp2 = *pNext;
 #endif
         }
     }
-- 
2.43.0


From 6d5fae90f39e19e911e7cce2ce889f7f80e7bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 25/57] fix: loading a looped 16-bit wave overwrote a sample in
 its middle

The copy of the loop's first sample was stored at half the intended index, and
left the extra sample at the end of the wave unset.
---
 arm-wt-22k/lib_src/eas_mdls.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index b81d037..e0bce03 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1372,19 +1372,19 @@ static EAS_RESULT Parse_data (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     }
 
-    /* for looped samples, copy the last sample to the end */
+    /* for looped samples, copy the first sample of the loop to the extra sample at the end */
     if (pWsmp->loopLength)
     {
-        if( (pDLSData->wavePoolOffset + pWsmp->loopLength) >= pDLSData->wavePoolSize )
-        {
-            return EAS_SUCCESS;
-        }
         if (sampleLen < sizeof(EAS_SAMPLE)
             || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE)) {
+            if( (pDLSData->wavePoolOffset + pWsmp->loopLength) >= pDLSData->wavePoolSize )
+            {
+                return EAS_SUCCESS;
+            }
             return EAS_FAILURE;
         }
 
-        pSample[(pWsmp->loopStart + pWsmp->loopLength)>>1] = pSample[(pWsmp->loopStart)>>1];
+        pSample[(sampleLen / sizeof(EAS_SAMPLE)) - 1] = pSample[pWsmp->loopStart];
     }
 
     return EAS_SUCCESS;
-- 
2.43.0


From d72c74eb734b334a92b71d3cf6b1867aa28e8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 26/57] fix: GM reset while notes sound must take effect at
 once

The reset was put off until all voices had ended: messages sent meanwhile were
undone by it, and it left the channels without a gain, so that following notes
stayed silent until the next controller message.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 52 ++++++-------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 68446ec..aff60cb 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -455,6 +455,7 @@ void VMIncRefCount (S_SYNTH *pSynth)
 */
 void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
 {
+    EAS_INT i;
 
 #ifdef _DEBUG_VM
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMReset: request to reset synth. Force = %d\n", force); */ }
@@ -466,32 +467,16 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     else
         VMMuteAllVoices(pVoiceMgr, pSynth);
 
-    /* don't reset if voices are still playing */
-    if (pSynth->numActiveVoices == 0)
-    {
-        EAS_INT i;
-
-#ifdef _DEBUG_VM
-        { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMReset: complete the reset process\n"); */ }
-#endif
-
-        VMInitializeAllChannels(pVoiceMgr, pSynth);
-        for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
-            pSynth->poolCount[i] = 0;
-
-        /* set polyphony */
-        if (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony)
-            pSynth->poolAlloc[0] = (EAS_U8) pVoiceMgr->maxPolyphony;
-        else
-            pSynth->poolAlloc[0] = (EAS_U8) pSynth->maxPolyphony;
-
-        /* clear reset flag */
-        pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
-    }
+    /* muted voices are already out of their pools and fade out by themselves */
+    VMInitializeAllChannels(pVoiceMgr, pSynth);
+    for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
+        pSynth->poolCount[i] = 0;
 
-    /* handle reset after voices are muted */
+    /* set polyphony */
+    if (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony)
+        pSynth->poolAlloc[0] = (EAS_U8) pVoiceMgr->maxPolyphony;
     else
-        pSynth->synthFlags |= SYNTH_FLAG_RESET_IS_REQUESTED;
+        pSynth->poolAlloc[0] = (EAS_U8) pSynth->maxPolyphony;
 }
 
 /*----------------------------------------------------------------------------
@@ -3036,25 +3021,6 @@ EAS_RESULT VMRender (S_VOICE_MGR *pVoiceMgr, EAS_I32 numSamples, EAS_I32 *pMixBu
         if (pSynth->synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING)
             VMDeferredStopNote(pVoiceMgr, pSynth);
 
-        /* check if we need to reset the synth */
-        if ((pSynth->synthFlags & SYNTH_FLAG_RESET_IS_REQUESTED) &&
-            (pSynth->numActiveVoices == 0))
-        {
-            /*
-            complete the process of resetting the synth now that
-            all voices have muted
-            */
-#ifdef _DEBUG_VM
-            { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMAddSamples: complete the reset process\n"); */ }
-#endif
-
-            VMInitializeAllChannels(pVoiceMgr, pSynth);
-            VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
-
-            /* clear the reset flag */
-            pSynth->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
-        }
-
         /* clear channel update flags */
         for (channel = 0; channel < NUM_SYNTH_CHANNELS; channel++)
             pSynth->channels[channel].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
-- 
2.43.0


From 9516a4bfb9ddc62bb56f0f0e78f4858cf24bb032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 27/57] fix: polyphony limits did not count notes waiting for a
 stolen voice

A stream's limit was checked against the number of voices that already play
its notes.  Voices it stole from another stream count only once they are
retargeted, so notes started in between took it over its limit, and
EAS_SetPolyphony left them alone.  Muting voices counted instead, so that a
new note could silence a playing one while voices were free.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 53 +++++++++++++++++--------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index aff60cb..38354b6 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -202,6 +202,31 @@ static EAS_U8 VMVoiceChannel (const S_SYNTH_VOICE *pVoice)
     return (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
 }
 
+/*----------------------------------------------------------------------------
+ * VMCountVoices()
+ *----------------------------------------------------------------------------
+ * Returns the number of voices that count against the polyphony limit,
+ * those of one synth or all if pSynth is NULL. Muting voices do not count.
+ *----------------------------------------------------------------------------
+*/
+static EAS_INT VMCountVoices (const S_VOICE_MGR *pVoiceMgr, const S_SYNTH *pSynth)
+{
+    const S_SYNTH_VOICE *pVoice;
+    EAS_INT voiceNum;
+    EAS_INT count;
+
+    count = 0;
+    for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+    {
+        pVoice = &pVoiceMgr->voices[voiceNum];
+        if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
+            continue;
+        if ((pSynth == NULL) || (GET_VSYNTH(VMVoiceChannel(pVoice)) == pSynth->vSynthNum))
+            count++;
+    }
+    return count;
+}
+
 /*----------------------------------------------------------------------------
  * IncVoicePoolCount()
  *----------------------------------------------------------------------------
@@ -1675,8 +1700,8 @@ void VMStartVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_
         maxSynthPoly = pSynth->maxPolyphony;
 
     /* any free voices? */
-    if ((pVoiceMgr->activeVoices < pVoiceMgr->maxPolyphony) &&
-        (pSynth->numActiveVoices < maxSynthPoly) &&
+    if ((VMCountVoices(pVoiceMgr, NULL) < pVoiceMgr->maxPolyphony) &&
+        (VMCountVoices(pVoiceMgr, pSynth) < maxSynthPoly) &&
         (EAS_SUCCESS == VMFindAvailableVoice(pVoiceMgr, &voiceNum, lowVoice, highVoice)))
     {
         S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
@@ -2026,26 +2051,12 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
     EAS_U8 currNote;
     EAS_I32 bestPriority;
     EAS_I32 currentPriority;
-    EAS_INT numVoices;
-    EAS_INT numSynthVoices;
     EAS_BOOL synthFull;
     EAS_BOOL full;
 
-    /* count the voices that are not muting */
-    numVoices = numSynthVoices = 0;
-    for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
-    {
-        pCurrVoice = &pVoiceMgr->voices[voiceNum];
-        if ((pCurrVoice->voiceState == eVoiceStateFree) || (pCurrVoice->voiceState == eVoiceStateMuting))
-            continue;
-        numVoices++;
-        if (GET_VSYNTH(VMVoiceChannel(pCurrVoice)) == pSynth->vSynthNum)
-            numSynthVoices++;
-    }
-
     /* the new note must not take the synth or the voice manager over its polyphony */
-    synthFull = (pSynth->maxPolyphony != 0) && (numSynthVoices >= pSynth->maxPolyphony);
-    full = synthFull || (numVoices >= pVoiceMgr->maxPolyphony);
+    synthFull = (pSynth->maxPolyphony != 0) && (VMCountVoices(pVoiceMgr, pSynth) >= pSynth->maxPolyphony);
+    full = synthFull || (VMCountVoices(pVoiceMgr, NULL) >= pVoiceMgr->maxPolyphony);
 
     /* determine which voice to steal */
     bestPriority = 0;
@@ -2074,7 +2085,7 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         }
 
         /* ignore voices that would not make room for the new note */
-        if ((synthFull && (pCurrSynth != pSynth)) || (full && (pCurrVoice->voiceState == eVoiceStateMuting)))
+        if ((synthFull && (pCurrSynth != pSynth)) || (full == (pCurrVoice->voiceState == eVoiceStateMuting)))
             continue;
 
         /* ignore voices that are higher priority */
@@ -3365,10 +3376,6 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     else
         pSynth->poolAlloc[0] = (EAS_U8) polyphonyCount;
 
-    /* are we under polyphony limit? */
-    if (pSynth->numActiveVoices <= polyphonyCount)
-        return EAS_SUCCESS;
-
     /* count the number of active voices */
     activeVoices = 0;
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
-- 
2.43.0


From 6744c4a2fdd1a3719983d62d509ff56636178a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 28/57] fix: a failed rewind must leave the stream in the error
 state

When the file device failed while SMF_Reset rewound the tracks (a seek, a
repeat or a metadata scan), the stream kept its state without a next event,
and every following EAS_Render of the whole instance failed.
---
 arm-wt-22k/lib_src/eas_smf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 097f7b9..55d150f 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -522,6 +522,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
 
+    /* assume that an error occurred */
+    pSMFData->state = EAS_STATE_ERROR;
+
     /* find the start of each track */
     ticks = 0x7fffffffL;
     pSMFData->nextStream = NULL;
-- 
2.43.0


From cc4326d6320ebbbccaf9a98ad53797c36f07b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 29/57] fix: a reverb preset must take effect when it is set

EAS_SetParameter only noted the preset; it was applied by the next block
rendered with the reverb on, which then overwrote a wet or dry level set
after the preset, and until then EAS_GetParameter still returned the old
preset (a preset that does not exist before the first block). Likewise the
forced first update discarded a wet level set before playback.
---
 arm-wt-22k/lib_src/eas_reverb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index cd5befe..716cc23 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -170,7 +170,7 @@ static EAS_RESULT ReverbInit(EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
 
     pReverbData->m_nNextRoom = 1;
 
-    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom + 1; // force update on first iteration
+    pReverbData->m_nCurrentRoom = pReverbData->m_nNextRoom; // its values are copied below
 
     pReverbData->m_nWet = REVERB_DEFAULT_WET;
 
@@ -877,6 +877,8 @@ static EAS_RESULT ReverbSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_REVERB_CHAMBER && value!=EAS_PARAM_REVERB_ROOM)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextRoom = (EAS_I16)value;
+            if (p->m_nNextRoom != p->m_nCurrentRoom)
+                ReverbUpdateRoom(p);
             break;
         case EAS_PARAM_REVERB_WET:
             if(value>EAS_REVERB_WET_MAX || value<EAS_REVERB_WET_MIN)
-- 
2.43.0


From 26f616fdc92d9866fb3c33d721f3dfe424b9f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 30/57] fix: chorus preset, rate and depth must take effect as
 set and read back

A preset was only noted and applied by the next block rendered with the
chorus on (never, while the level was 0), overwriting a rate, depth or level
set after it; rate and depth were stored without the conversion the presets
get, so they had the wrong unit, and were read back converted after a preset.
---
 arm-wt-22k/lib_src/eas_chorus.c     | 82 ++++++++++++++---------------
 arm-wt-22k/lib_src/eas_chorusdata.h |  6 ++-
 2 files changed, 43 insertions(+), 45 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index 4a2c8d0..6b82396 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -70,6 +70,33 @@ static const EAS_I16 EAS_chorusShape[CHORUS_SHAPE_SIZE] = {
     -12539, -11039, -9512, -7962, -6393, -4808, -3212, -1608
 };
 
+/* chorus rate and depth need some massaging from parameter value (which is sample rate independent) */
+
+static void ChorusSetRate (S_CHORUS_OBJECT *pChorusData, EAS_I16 rate)
+{
+    pChorusData->m_nRateParam = rate;
+
+    //convert rate from steps of .05 Hz to value which can be used as phase increment,
+    //with current CHORUS_SHAPE_SIZE and rate limits, this fits into 16 bits
+    //want to compute ((shapeSize * 65536) * (storedRate/20))/sampleRate;
+    //computing it as below allows rate steps to be evenly spaced
+    //uses 32 bit divide, but only once when new value is selected
+    pChorusData->m_nRate = (EAS_I16)
+        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * rate);
+}
+
+static void ChorusSetDepth (S_CHORUS_OBJECT *pChorusData, EAS_I16 depth)
+{
+    pChorusData->m_nDepthParam = depth;
+
+    //convert depth from steps of .05 ms, to samples, with 16 bit whole part, discard fraction
+    //want to compute ((depth * sampleRate)/20000)
+    //use the following approximation since 105/32 is roughly 65536/20000
+    /*lint -e{704} use shift for performance */
+    pChorusData->m_nDepth = (EAS_I16)
+        (((((EAS_I32)depth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
+}
+
 /*----------------------------------------------------------------------------
  * InitializeChorus()
  *----------------------------------------------------------------------------
@@ -111,27 +138,8 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pChorusData->bypass =       EAS_CHORUS_BYPASS_DEFAULT;
     pChorusData->preset =       EAS_CHORUS_PRESET_DEFAULT;
     pChorusData->m_nLevel =     EAS_CHORUS_LEVEL_DEFAULT;
-    pChorusData->m_nRate =      EAS_CHORUS_RATE_DEFAULT;
-    pChorusData->m_nDepth =     EAS_CHORUS_DEPTH_DEFAULT;
-
-    //chorus rate and depth need some massaging from preset value (which is sample rate independent)
-
-    //convert rate from steps of .05 Hz to value which can be used as phase increment,
-    //with current CHORUS_SHAPE_SIZE and rate limits, this fits into 16 bits
-    //want to compute ((shapeSize * 65536) * (storedRate/20))/sampleRate;
-    //computing it as below allows rate steps to be evenly spaced
-    //uses 32 bit divide, but only once when new value is selected
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    //convert depth from steps of .05 ms, to samples, with 16 bit whole part, discard fraction
-    //want to compute ((depth * sampleRate)/20000)
-    //use the following approximation since 105/32 is roughly 65536/20000
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
-
-    pChorusData->m_nLevel = pChorusData->m_nLevel;
+    ChorusSetRate(pChorusData, EAS_CHORUS_RATE_DEFAULT);
+    ChorusSetDepth(pChorusData, EAS_CHORUS_DEPTH_DEFAULT);
 
     //zero delay memory for chorus
     for (index = CHORUS_L_SIZE - 1; index >= 0; index--)
@@ -160,15 +168,8 @@ static EAS_RESULT ChorusInit (EAS_DATA_HANDLE pEASData, EAS_VOID_PTR *pInstData)
     pPreset = &pChorusData->m_sPreset.m_sPreset[pChorusData->m_nNextChorus];
 
     pChorusData->m_nLevel = pPreset->m_nLevel;
-    pChorusData->m_nRate =  pPreset->m_nRate;
-    pChorusData->m_nDepth = pPreset->m_nDepth;
-
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
+    ChorusSetRate(pChorusData, pPreset->m_nRate);
+    ChorusSetDepth(pChorusData, pPreset->m_nDepth);
 
     *pInstData = pChorusData;
 
@@ -442,10 +443,10 @@ static EAS_RESULT ChorusGetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
             *pValue = (EAS_I8) p->m_nCurrentChorus;
             break;
         case EAS_PARAM_CHORUS_RATE:
-            *pValue = (EAS_I32) p->m_nRate;
+            *pValue = (EAS_I32) p->m_nRateParam;
             break;
         case EAS_PARAM_CHORUS_DEPTH:
-            *pValue = (EAS_I32) p->m_nDepth;
+            *pValue = (EAS_I32) p->m_nDepthParam;
             break;
         case EAS_PARAM_CHORUS_LEVEL:
             *pValue = (EAS_I32) p->m_nLevel;
@@ -491,16 +492,18 @@ static EAS_RESULT ChorusSetParam (EAS_VOID_PTR pInstData, EAS_I32 param, EAS_I32
                 value!=EAS_PARAM_CHORUS_PRESET3 && value!=EAS_PARAM_CHORUS_PRESET4)
                 return EAS_ERROR_INVALID_PARAMETER;
             p->m_nNextChorus = (EAS_I8)value;
+            if (p->m_nNextChorus != p->m_nCurrentChorus)
+                ChorusUpdate(p);
             break;
         case EAS_PARAM_CHORUS_RATE:
             if(value<EAS_CHORUS_RATE_MIN || value>EAS_CHORUS_RATE_MAX)
                 return EAS_ERROR_INVALID_PARAMETER;
-            p->m_nRate = (EAS_I16) value;
+            ChorusSetRate(p, (EAS_I16) value);
             break;
         case EAS_PARAM_CHORUS_DEPTH:
             if(value<EAS_CHORUS_DEPTH_MIN || value>EAS_CHORUS_DEPTH_MAX)
                 return EAS_ERROR_INVALID_PARAMETER;
-            p->m_nDepth = (EAS_I16) value;
+            ChorusSetDepth(p, (EAS_I16) value);
             break;
         case EAS_PARAM_CHORUS_LEVEL:
             if(value<EAS_CHORUS_LEVEL_MIN || value>EAS_CHORUS_LEVEL_MAX)
@@ -587,15 +590,8 @@ static EAS_RESULT ChorusUpdate(S_CHORUS_OBJECT *pChorusData)
     S_CHORUS_PRESET *pPreset = &pChorusData->m_sPreset.m_sPreset[pChorusData->m_nNextChorus];
 
     pChorusData->m_nLevel = pPreset->m_nLevel;
-    pChorusData->m_nRate =  pPreset->m_nRate;
-    pChorusData->m_nDepth = pPreset->m_nDepth;
-
-    pChorusData->m_nRate = (EAS_I16)
-        ((((EAS_I32)CHORUS_SHAPE_SIZE<<16)/(20*(EAS_I32)_OUTPUT_SAMPLE_RATE)) * pChorusData->m_nRate);
-
-    /*lint -e{704} use shift for performance */
-    pChorusData->m_nDepth = (EAS_I16)
-        (((((EAS_I32)pChorusData->m_nDepth * _OUTPUT_SAMPLE_RATE)>>5) * 105) >> 16);
+    ChorusSetRate(pChorusData, pPreset->m_nRate);
+    ChorusSetDepth(pChorusData, pPreset->m_nDepth);
 
     pChorusData->m_nCurrentChorus = pChorusData->m_nNextChorus;
 
diff --git a/arm-wt-22k/lib_src/eas_chorusdata.h b/arm-wt-22k/lib_src/eas_chorusdata.h
index ec8daa4..4e2c9a3 100644
--- a/arm-wt-22k/lib_src/eas_chorusdata.h
+++ b/arm-wt-22k/lib_src/eas_chorusdata.h
@@ -82,9 +82,11 @@ typedef struct
     EAS_I16 chorusIndexR;
     EAS_U16 chorusTapPosition;
 
-    EAS_I16 m_nRate;
-    EAS_I16 m_nDepth;
+    EAS_I16 m_nRate;                        // phase increment
+    EAS_I16 m_nDepth;                       // samples
     EAS_I16 m_nLevel;
+    EAS_I16 m_nRateParam;                   // rate in steps of .05 Hz
+    EAS_I16 m_nDepthParam;                  // depth in steps of .05 ms
 
     //delay lines used by the chorus, longer would sound better
     EAS_PCM chorusDelayL[CHORUS_L_SIZE];
-- 
2.43.0


From 4d5e051e8d56b5fcb99bf79c38ec907736d78fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 31/57] fix: refuse a stream priority outside 1 to 255

It was cut to 8 bits, so that 300 became 44.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 38354b6..5c201b2 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3502,6 +3502,9 @@ EAS_RESULT VMGetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 *pPo
 /*lint -esym(715, pVoiceMgr) reserved for future use */
 EAS_RESULT VMSetPriority (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 priority)
 {
+    if ((priority < 1) || (priority > 255))
+        return EAS_ERROR_PARAMETER_RANGE;
+
     pSynth->priority = (EAS_U8) priority ;
     return EAS_SUCCESS;
 }
-- 
2.43.0


From 79944e2af8087658447eb2362344021f45626800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 32/57] fix: the default stream priority is the documented 50

It was 5, so that a stream given a priority of 20 ranked below the others
instead of above them.
---
 arm-wt-22k/lib_src/eas_synth.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_synth.h b/arm-wt-22k/lib_src/eas_synth.h
index bcd29ea..b6cb605 100644
--- a/arm-wt-22k/lib_src/eas_synth.h
+++ b/arm-wt-22k/lib_src/eas_synth.h
@@ -112,7 +112,7 @@
 /* default synth master volume */
 #define DEFAULT_SYNTH_MASTER_VOLUME     0x7fff
 
-#define DEFAULT_SYNTH_PRIORITY          5
+#define DEFAULT_SYNTH_PRIORITY          50
 
 /* default tuning values */
 #define DEFAULT_PITCH_BEND_SENSITIVITY      200     /* 2 semitones */
-- 
2.43.0


From 79b5d0911bf3ad578977444237a944918c665b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 33/57] fix: a seek or metadata scan must not be cut short by
 yields or the load limit

EAS_ParseEvents stopped early for them in every mode, but only EAS_Render
comes back for the rest: EAS_Locate returned success with the position at 0
and part of the events skipped, EAS_ParseMetaData with part of the length.
The load counted against the limit was moreover that of the previous frame.
---
 arm-wt-22k/lib_src/eas_public.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 0fdee2f..88db2ec 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1355,6 +1355,10 @@ static EAS_RESULT EAS_ParseEvents (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
             }
         }
 
+        /* a locate or a scan is finished in this call, nothing would resume it */
+        if (parseMode != eParserModePlay)
+            continue;
+
         /* check for max workload exceeded */
         if (VMCheckWorkload(pEASData->pVoiceMgr))
         {
-- 
2.43.0


From 69dd69e9c2ec8014e90d029666f9d75233e4ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 34/57] fix: a stream located past its end with a repeat
 pending can be paused

EAS_State shows it as playing, but EAS_Pause refused it.
---
 arm-wt-22k/lib_src/eas_public.c | 40 ++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 88db2ec..a0940e6 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -85,6 +85,7 @@ static const S_EAS_LIB_CONFIG easLibConfig =
 
 /* local prototypes */
 static EAS_RESULT EAS_ParseEvents (S_EAS_DATA *pEASData, S_EAS_STREAM *pStream, EAS_U32 endTime, EAS_INT parseMode);
+static EAS_RESULT EAS_StartRepeat (S_EAS_DATA *pEASData, S_EAS_STREAM *pStream);
 
 /*----------------------------------------------------------------------------
  * EAS_SetStreamParameter
@@ -859,6 +860,28 @@ EAS_PUBLIC EAS_RESULT EAS_Prepare (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
     return result;
 }
 
+/*----------------------------------------------------------------------------
+ * EAS_StartRepeat()
+ *----------------------------------------------------------------------------
+ * Rewinds a stopped stream with a repeat count for its next pass
+ *----------------------------------------------------------------------------
+*/
+static EAS_RESULT EAS_StartRepeat (S_EAS_DATA *pEASData, S_EAS_STREAM *pStream)
+{
+    S_FILE_PARSER_INTERFACE *pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    EAS_RESULT result;
+
+    /* decrement repeat count, unless it is negative */
+    if (pStream->repeatCount > 0)
+        pStream->repeatCount--;
+
+    /* reset the parser */
+    if ((result = (*pParserModule->pfReset)(pEASData, pStream->handle)) != EAS_SUCCESS)
+        return result;
+    pStream->time = 0;
+    return EAS_SUCCESS;
+}
+
 /*----------------------------------------------------------------------------
  * EAS_Render()
  *----------------------------------------------------------------------------
@@ -988,15 +1011,8 @@ EAS_PUBLIC EAS_RESULT EAS_Render (EAS_DATA_HANDLE pEASData, EAS_PCM *pOut, EAS_I
                     return result;
                 if (parserState == EAS_STATE_STOPPED)
                 {
-
-                    /* decrement repeat count, unless it is negative */
-                    if (pEASData->streams[streamNum].repeatCount > 0)
-                        pEASData->streams[streamNum].repeatCount--;
-
-                    /* reset the parser */
-                    if ((result = (*pParserModule->pfReset)(pEASData, pEASData->streams[streamNum].handle)) != EAS_SUCCESS)
+                    if ((result = EAS_StartRepeat(pEASData, &pEASData->streams[streamNum])) != EAS_SUCCESS)
                         return result;
-                    pEASData->streams[streamNum].time = 0;
                 }
             }
         }
@@ -2206,6 +2222,14 @@ EAS_PUBLIC EAS_RESULT EAS_Pause (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
     result = pParserModule->pfState(pEASData, pStream->handle, &state);
     if (result == EAS_SUCCESS)
     {
+        /* a stream that is going to repeat is shown as playing */
+        if ((state == EAS_STATE_STOPPED) && pStream->repeatCount)
+        {
+            if ((result = EAS_StartRepeat(pEASData, pStream)) != EAS_SUCCESS)
+                return result;
+            state = EAS_STATE_READY;
+        }
+
         if ((state != EAS_STATE_PLAY) && (state != EAS_STATE_READY) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))
             return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
 
-- 
2.43.0


From 5df10383f95a6516ce0b02a8fc6967d792427726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 35/57] fix: accept a DLS collection that defines no
 articulation of its own

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index e0bce03..f9e3607 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -610,8 +610,8 @@ EAS_RESULT DLSParser (EAS_HW_DATA_HANDLE hwInstData, EAS_FILE_HANDLE fileHandle,
             return EAS_ERROR_FILE_FORMAT;
         }
 
-        /* limit check  */
-        if ((dls.artCount == 0) || (dls.artCount > DLS_MAX_ART_COUNT))
+        /* limit check; a collection without any articulation data uses the default one */
+        if (dls.artCount > DLS_MAX_ART_COUNT)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "DLS file contains invalid #articulations [%u]\n", dls.regionCount); */ }
             EAS_HWFree(dls.hwInstData, dls.wsmpData);
-- 
2.43.0


From a94da1f9aadb7032926d7f6a7f2e2a3b81244e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 36/57] fix: DLS regions beyond the declared count must not
 unlink the region list

---
 arm-wt-22k/lib_src/eas_mdls.c | 43 +++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index f9e3607..fe82d8e 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1432,15 +1432,6 @@ static EAS_RESULT Parse_lins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         if (temp != CHUNK_INS)
             continue;
 
-        /* if second pass, ensure instCount is less than numDLSPrograms */
-        if (pDLSData->pDLS)
-        {
-            if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
-            {
-                return EAS_ERROR_DATA_INCONSISTENCY;
-            }
-        }
-
         if ((result = Parse_ins(pDLSData, chunkPos + 12, size - 4)) != EAS_SUCCESS)
             return result;
     }
@@ -1476,6 +1467,7 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     EAS_I32 lar2Size;
     EAS_I32 inshPos;
     EAS_U32 regionCount;
+    EAS_U32 firstRegion;
     EAS_U32 locale;
     S_DLS_ART_VALUES art;
     S_PROGRAM *pProgram;
@@ -1565,19 +1557,34 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
         if (art.values[PARAM_MODIFIED])
             Convert_art(pDLSData, &art, artIndex);
 
+    }
+
+    /* parse the region data */
+    firstRegion = pDLSData->regionCount;
+    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
+        return result;
+
+    /* an instrument without any region is ignored */
+    if (pDLSData->regionCount == firstRegion)
+        return EAS_SUCCESS;
+
+    if (pDLSData->pDLS)
+    {
+
+        /* if second pass, ensure instCount is less than numDLSPrograms */
+        if (pDLSData->instCount >= pDLSData->pDLS->numDLSPrograms)
+        {
+            return EAS_ERROR_DATA_INCONSISTENCY;
+        }
+
         /* setup pointers */
         pProgram = &pDLSData->pDLS->pDLSPrograms[pDLSData->instCount];
 
         /* initialize instrument */
         pProgram->locale = locale;
-        pProgram->regionIndex = (EAS_U16) pDLSData->regionCount | FLAG_RGN_IDX_DLS_SYNTH;
-
+        pProgram->regionIndex = (EAS_U16) firstRegion | FLAG_RGN_IDX_DLS_SYNTH;
     }
 
-    /* parse the region data */
-    if ((result = Parse_lrgn(pDLSData, lrgnPos, lrgnSize, artIndex, regionCount)) != EAS_SUCCESS)
-        return result;
-
     /* bump instrument count */
     pDLSData->instCount++;
     return EAS_SUCCESS;
@@ -1663,6 +1670,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     EAS_I32 chunkPos;
     EAS_I32 endChunk;
     EAS_U16 regionCount;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1670,6 +1678,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     regionCount = 0;
+    firstRegion = pDLSData->regionCount;
     endChunk = pos + size;
     while (pos < endChunk)
     {
@@ -1684,7 +1693,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             if (regionCount == numRegions)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
-                return EAS_SUCCESS;
+                break;
             }
             /* if second pass, ensure regionCount is less than numDLSRegions */
             if (pDLSData->pDLS)
@@ -1701,7 +1710,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     }
 
     /* set a flag in the last region */
-    if ((pDLSData->pDLS != NULL) && (regionCount > 0))
+    if ((pDLSData->pDLS != NULL) && (pDLSData->regionCount != firstRegion))
         pDLSData->pDLS->pDLSRegions[pDLSData->regionCount - 1].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
 
     return EAS_SUCCESS;
-- 
2.43.0


From b23e4615a7645fdef9a6cd6cf6dc052ee52befb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 37/57] fix: the wsmp of a DLS region without a loop overrides
 the loop of its wave

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index fe82d8e..7cd9224 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1141,8 +1141,12 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
     if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
         return result;
 
+    /* if not looped, a loop of the wave does not apply either */
+    if (ltemp == 0)
+        p->loopStart = p->loopLength = 0;
+
     /* if looped sample, get loop data */
-    if (ltemp)
+    else
     {
 
         if (ltemp > 1)
-- 
2.43.0


From a20f21b1eb3d04a2d3aefbdbaaa314a150490503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 38/57] fix: a DLS region may loop an unlooped wave up to its
 end

---
 arm-wt-22k/lib_src/eas_mdls.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 7cd9224..893487f 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -926,6 +926,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     EAS_I32 fmtPos = 0;
     EAS_I32 dataPos = 0;
     EAS_I32 dataSize = 0;
+    EAS_U32 poolSize;
     S_WSMP_DATA *p;
     void *pSample;
     S_WSMP_DATA wsmp;
@@ -1056,10 +1057,15 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             size += 2;
     }
 
+    /* a region may loop an unlooped wave, so leave room for the extra sample in any case */
+    poolSize = (EAS_U32) size;
+    if (p->loopLength == 0)
+        poolSize += sizeof(EAS_SAMPLE);
+
     /* for first pass, add size to wave pool size and return */
     if (pDLSData->pDLS == NULL)
     {
-        pDLSData->wavePoolSize += (EAS_U32) size;
+        pDLSData->wavePoolSize += poolSize;
         return EAS_SUCCESS;
     }
 
@@ -1067,7 +1073,7 @@ static EAS_RESULT Parse_wave (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     pSample = (EAS_U8*)pDLSData->pDLS->pDLSSamples + pDLSData->wavePoolOffset;
     pDLSData->pDLS->pDLSSampleOffsets[waveIndex] = pDLSData->wavePoolOffset;
     pDLSData->pDLS->pDLSSampleLen[waveIndex] = (EAS_U32) size;
-    pDLSData->wavePoolOffset += (EAS_U32) size;
+    pDLSData->wavePoolOffset += poolSize;
     if (pDLSData->wavePoolOffset > pDLSData->wavePoolSize)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Wave pool exceeded allocation\n"); */ }
@@ -1884,11 +1890,20 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
         if (pWsmp->loopLength != 0)
         {
             EAS_U32 sampleLen = pDLSData->pDLS->pDLSSampleLen[waveIndex];
+            EAS_SAMPLE *pSample = PtrOfs(pDLSData->pDLS->pDLSSamples, (EAS_I32) pDLSData->pDLS->pDLSSampleOffsets[waveIndex]);
+
+            /* an unlooped wave has room for the extra sample, too */
+            if (pDLSData->wsmpData[waveIndex].loopLength == 0)
+                sampleLen += sizeof(EAS_SAMPLE);
             if (sampleLen < sizeof(EAS_SAMPLE)
                 || (pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) > sampleLen - sizeof(EAS_SAMPLE))
             {
                 return EAS_FAILURE;
             }
+
+            /* a loop up to the end of the wave wraps to its own first sample */
+            if ((pWsmp->loopStart + pWsmp->loopLength) * sizeof(EAS_SAMPLE) == sampleLen - sizeof(EAS_SAMPLE))
+                pSample[pWsmp->loopStart + pWsmp->loopLength] = pSample[pWsmp->loopStart];
         }
     }
 
-- 
2.43.0


From a8292276687ec26a3ee5dcbad51200112a85b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 39/57] fix: the gain of a DLS wsmp is a signed 32-bit value

EAS_I32 is 64 bits wide on LP64, the negative gains were read as large
positive ones and ignored.
---
 arm-wt-22k/lib_src/eas_mdls.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 893487f..24de81c 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1131,8 +1131,10 @@ static EAS_RESULT Parse_wsmp (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, S_WS
         return result;
 
     /* get gain */
-    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &p->gain, EAS_FALSE)) != EAS_SUCCESS)
+    if ((result = EAS_HWGetDWord(pDLSData->hwInstData, pDLSData->fileHandle, &ltemp, EAS_FALSE)) != EAS_SUCCESS)
         return result;
+    /* signed 32-bit value, EAS_I32 may be wider */
+    p->gain = (EAS_I32) (EAS_INT) ltemp;
     if (p->gain > 0)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "Positive gain [%ld] in DLS wsmp ignored, set to 0dB\n", p->gain); */ }
-- 
2.43.0


From 69900a54c38d4e87418bb18f27ab49cdfe2e707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 40/57] fix: a skipped region at the end of a DLS collection
 must not refuse it

The second pass counted a region as one too many before its condition
was evaluated.
---
 arm-wt-22k/lib_src/eas_mdls.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 24de81c..0622a7b 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1707,14 +1707,6 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
                 break;
             }
-            /* if second pass, ensure regionCount is less than numDLSRegions */
-            if (pDLSData->pDLS)
-            {
-                if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
-                {
-                    return EAS_ERROR_DATA_INCONSISTENCY;
-                }
-            }
             if ((result = Parse_rgn(pDLSData, chunkPos + 12, size - 4, artIndex)) != EAS_SUCCESS)
                 return result;
             regionCount++;
@@ -1859,6 +1851,12 @@ static EAS_RESULT Parse_rgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     if (pDLSData->pDLS)
     {
 
+        /* ensure regionCount is less than numDLSRegions, skipped regions do not count */
+        if (pDLSData->regionCount >= pDLSData->pDLS->numDLSRegions)
+        {
+            return EAS_ERROR_DATA_INCONSISTENCY;
+        }
+
         /* if local data was found convert it */
         if (art.values[PARAM_MODIFIED] == EAS_TRUE)
         {
-- 
2.43.0


From f95f59f7abc2d36d40ce5d896556665bd9e07b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 41/57] fix: a voice that is ending must not count towards the
 same-note limit

Whether the ending voices counted depended on another channel sounding
(poolCount), so the start of a retriggered note did as well.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 5c201b2..21c4968 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1585,8 +1585,9 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
 
-            /* same channel and note ? */
-            if ((channel == pVoiceMgr->voices[voiceNum].channel) && (note == pVoiceMgr->voices[voiceNum].note))
+            /* same channel and note, and not about to end anyway ? */
+            if ((channel == pVoiceMgr->voices[voiceNum].channel) && (note == pVoiceMgr->voices[voiceNum].note) &&
+                (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateMuting))
             {
                 numVoicesPlayingNote++;
                 age = pVoiceMgr->age - pVoiceMgr->voices[voiceNum].age;
-- 
2.43.0


From f19c759d4209c7414bbed4a9181a9bb8d2ffefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 42/57] fix: the set-up bar must be skipped on every pass, not
 only the first

---
 arm-wt-22k/lib_src/eas_midi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 8cb043a..4116981 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -93,6 +93,7 @@ void EAS_InitMIDIStream (S_MIDI_STREAM *pMIDIStream)
     pMIDIStream->pending = EAS_FALSE;
     pMIDIStream->runningStatus = 0;
     pMIDIStream->status = 0;
+    pMIDIStream->flags = 0;
 }
 
 /*----------------------------------------------------------------------------
-- 
2.43.0


From 0b06d3b900d79989e47e17fb78eca8962b3443c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 43/57] fix: the metadata scan must skip the set-up bar like
 playback does

---
 arm-wt-22k/lib_src/eas_midi.c | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 4116981..77e858b 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -127,11 +127,7 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
 
             /* deal with SysEx */
             if ((c == 0xf7) || (c == 0xf0))
-            {
-                if (parserMode == eParserModeMetaData)
-                    return EAS_SUCCESS;
                 return ProcessSysExMessage(pEASData, pSynth, pMIDIStream, c, parserMode);
-            }
 
             /* inform the file parser that we're in the middle of a message */
             if ((c < 0xf4) || (c > 0xf6))
@@ -148,8 +144,6 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
         pMIDIStream->d2 = c;
         pMIDIStream->byte3 = EAS_FALSE;
         pMIDIStream->pending = EAS_FALSE;
-        if (parserMode == eParserModeMetaData)
-            return EAS_SUCCESS;
         return ProcessMIDIMessage(pEASData, pSynth, pMIDIStream, parserMode);
     }
 
@@ -174,8 +168,6 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
         {
             pMIDIStream->d1 = c;
             pMIDIStream->pending = EAS_FALSE;
-            if (parserMode == eParserModeMetaData)
-                return EAS_SUCCESS;
             return ProcessMIDIMessage(pEASData, pSynth, pMIDIStream, parserMode);
         }
 
@@ -190,11 +182,7 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
 
         /* SysEx message? */
         if (pMIDIStream->status == 0xF0)
-        {
-            if (parserMode == eParserModeMetaData)
-                return EAS_SUCCESS;
             return ProcessSysExMessage(pEASData, pSynth, pMIDIStream, c, parserMode);
-        }
 
         /* remaining messages all clear running status */
         pMIDIStream->runningStatus = 0;
@@ -403,9 +391,9 @@ static EAS_RESULT ProcessSysExMessage (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_
             if ((c == 1) || (c == 3))
             {
                 /* GM 1 or GM2 On, reset synth */
+                pMIDIStream->flags |= MIDI_FLAG_GM_ON;
                 if (parserMode != eParserModeMetaData)
                 {
-                    pMIDIStream->flags |= MIDI_FLAG_GM_ON;
                     VMReset(pEASData->pVoiceMgr, pSynth, EAS_FALSE);
                     VMInitMIPTable(pSynth);
                 }
-- 
2.43.0


From 6eb838e8f0db84ea2a5e05869b346041b75ac38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 44/57] fix: time must not stand still again once the first
 note has been played

---
 arm-wt-22k/lib_src/eas_miditypes.h |  1 +
 arm-wt-22k/lib_src/eas_smf.c       | 12 +++++-------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_miditypes.h b/arm-wt-22k/lib_src/eas_miditypes.h
index 015f08b..ee7ae1d 100644
--- a/arm-wt-22k/lib_src/eas_miditypes.h
+++ b/arm-wt-22k/lib_src/eas_miditypes.h
@@ -116,6 +116,7 @@ typedef struct s_smf_data_tag
 #define SMF_FLAGS_HAS_TIME_SIG      0x02    /* time signature encountered at time 0 */
 #define SMF_FLAGS_HAS_TEMPO         0x04    /* tempo encountered at time 0  */
 #define SMF_FLAGS_HAS_GM_ON         0x08    /* GM System On encountered at time 0 */
+#define SMF_FLAGS_FIRST_NOTE        0x10    /* first note encountered, nothing left to skip */
 #define SMF_FLAGS_JET_STREAM        0x80    /* JET in use - keep strict timing */
 
 /* combo flags indicate setup bar */
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 55d150f..d581e9f 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -516,7 +516,7 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     pSMFData->time = 0;
 
     /* back to the default tempo, and forget what was learned about the setup bar */
-    pSMFData->flags &= ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
+    pSMFData->flags &= ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_FIRST_NOTE | SMF_FLAGS_SETUP_BAR);
     pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
 
     /* reset the synth */
@@ -1082,12 +1082,10 @@ static EAS_RESULT SMF_ParseEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_
     /* chase mode logic */
     if (pSMFData->time == 0)
     {
-        if (pSMFData->flags & SMF_FLAGS_CHASE_MODE)
-        {
-            if (pSMFStream->midiStream.flags & MIDI_FLAG_FIRST_NOTE)
-                pSMFData->flags &= ~SMF_FLAGS_CHASE_MODE;
-        }
-        else if ((pSMFData->flags & SMF_FLAGS_SETUP_BAR) == SMF_FLAGS_SETUP_BAR)
+        /* there is nothing to skip once the first note has been played */
+        if (pSMFStream->midiStream.flags & MIDI_FLAG_FIRST_NOTE)
+            pSMFData->flags = (pSMFData->flags & ~SMF_FLAGS_CHASE_MODE) | SMF_FLAGS_FIRST_NOTE;
+        else if (((pSMFData->flags & SMF_FLAGS_SETUP_BAR) == SMF_FLAGS_SETUP_BAR) && !(pSMFData->flags & SMF_FLAGS_FIRST_NOTE))
             pSMFData->flags = (pSMFData->flags & ~SMF_FLAGS_SETUP_BAR) | SMF_FLAGS_CHASE_MODE;
     }
 
-- 
2.43.0


From 3badcc36ce0797088452008d705bdc8da7ed8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 45/57] fix: find the header of a file that follows other data
 ending in the start of the header

EAS_SearchFile dropped a partial match without looking again at the byte
that ended it, so "M" followed by "MThd" hid the file, and it compared
four bytes whatever the length of the sequence.
---
 arm-wt-22k/lib_src/eas_public.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0940e6..f2a35b8 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2687,6 +2687,7 @@ EAS_RESULT EAS_SearchFile (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle, con
 {
     EAS_RESULT result;
     EAS_INT index;
+    EAS_INT i;
     EAS_U8 c;
 
     *pOffset = -1;
@@ -2699,7 +2700,7 @@ EAS_RESULT EAS_SearchFile (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle, con
         if (c == searchString[index])
         {
             index++;
-            if (index == 4)
+            if (index == len)
             {
                 result = EAS_HWFilePos(pEASData->hwInstData, fileHandle, pOffset);
                 if (result != EAS_SUCCESS)
@@ -2709,7 +2710,13 @@ EAS_RESULT EAS_SearchFile (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle, con
             }
         }
         else
-            index = 0;
+        {
+            /* fall back to the longest start of the sequence that ends with this byte */
+            for (i = index; i > 0; i--)
+                if ((searchString[i - 1] == c) && (EAS_HWMemCmp(searchString, &searchString[index - i + 1], i - 1) == 0))
+                    break;
+            index = i;
+        }
     }
     return EAS_SUCCESS;
 }
-- 
2.43.0


From 71732715abc2f1458693f12c0c5161d451485b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 46/57] fix: lifting a stream's voice limit must unmute the
 SP-MIDI channels it allows

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 21c4968..964555a 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3361,11 +3361,12 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     if ((polyphonyCount == 0) || (polyphonyCount > MAX_SYNTH_VOICES))
     {
         pSynth->maxPolyphony = 0;
-        return EAS_SUCCESS;
+        polyphonyCount = pVoiceMgr->maxPolyphony;
     }
 
     /* set new polyphony */
-    pSynth->maxPolyphony = (EAS_U16) polyphonyCount;
+    else
+        pSynth->maxPolyphony = (EAS_U16) polyphonyCount;
 
     /* max polyphony is minimum of virtual synth and actual synth */
     if (polyphonyCount > pVoiceMgr->maxPolyphony)
-- 
2.43.0


From aab7227af1de94fc1bc60d51979fffa01e84236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 47/57] fix: a bad MIP message must unmute the channels

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 964555a..2cce8c3 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -699,6 +699,7 @@ void VMInitMIPTable (S_SYNTH *pSynth)
     {
         pSynth->channels[i].pool = 0;
         pSynth->channels[i].mip = 0;
+        pSynth->channels[i].channelFlags &= ~CHANNEL_FLAG_MUTE;
     }
 }
 
-- 
2.43.0


From ebea06789686f68513ed8a9a5467fe8b6335d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:10 +0000
Subject: [PATCH 48/57] fix: a stolen voice must look at its new channel, not
 its old one, for SP-MIDI muting

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 2cce8c3..2ba354d 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1404,8 +1404,8 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     /* establish some pointers */
     pVoice = &pVoiceMgr->voices[voiceNum];
     pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
-    pMIDIChannel = &pSynth->channels[pVoice->channel & 15];
     pNextSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)];
+    pMIDIChannel = &pNextSynth->channels[GET_CHANNEL(pVoice->nextChannel)];
 
 #ifdef _DEBUG_VM
 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMRetargetStolenVoice: retargeting stolen voice %d on channel %d\n",
@@ -1416,7 +1416,7 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 #endif
 
     /* make sure new channel hasn't been muted by SP-MIDI since the voice was stolen */
-    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
+    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
         (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))
     {
         VMFreeVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum]);
-- 
2.43.0


From d854ea8559e9bd0356aa398682a6415da56e305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 49/57] fix: SP-MIDI muting must count on no more voices than
 the synthesizer has

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 2ba354d..c79f793 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -746,7 +746,7 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
 #endif
 
     /* determine max polyphony */
-    if (pSynth->maxPolyphony)
+    if (pSynth->maxPolyphony && (pSynth->maxPolyphony < pVoiceMgr->maxPolyphony))
         maxPolyphony = pSynth->maxPolyphony;
     else
         maxPolyphony = pVoiceMgr->maxPolyphony;
-- 
2.43.0


From 655523cf9e52a9e3dd3f14d9d194070c8878c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 50/57] fix: a reset must end SP-MIDI muting

A song that is rewound or restarted kept the polyphony table of its last
MIP message, so that a later change of the voice limit silenced channels
of the restarted song.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index c79f793..1676b78 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -494,6 +494,7 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
 
     /* muted voices are already out of their pools and fade out by themselves */
     VMInitializeAllChannels(pVoiceMgr, pSynth);
+    VMInitMIPTable(pSynth);
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
         pSynth->poolCount[i] = 0;
 
-- 
2.43.0


From 6305de6fb8e684359955561441b4370b492ae373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 51/57] fix: DLS condition arithmetic must wrap at 32 bits
 where EAS_U32 is wider

---
 arm-wt-22k/lib_src/eas_mdls.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 0622a7b..9e0e3c4 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2396,13 +2396,13 @@ static EAS_RESULT Parse_cdl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 size, EAS_
                     x = x ^ y;
                     break;
                 case DLS_CDL_ADD:
-                    x = x + y;
+                    x = (x + y) & 0xffffffff;
                     break;
                 case DLS_CDL_SUBTRACT:
-                    x = x - y;
+                    x = (x - y) & 0xffffffff;
                     break;
                 case DLS_CDL_MULTIPLY:
-                    x = x * y;
+                    x = (x * y) & 0xffffffff;
                     break;
                 case DLS_CDL_DIVIDE:
                     if (!y)
-- 
2.43.0


From 7bcc11876341f832739ef5f2f9ad5e0b196e62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 52/57] fix: notes must not go on playing through a sound
 library that has been replaced

---
 arm-wt-22k/lib_src/eas_public.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index f2a35b8..451769d 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -203,7 +203,17 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #endif
 
         case PARSER_DATA_EAS_LIBRARY:
-            return VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+            {
+                EAS_RESULT result = VMSetEASLib(pSynth, (EAS_SNDLIB_HANDLE) value);
+
+                /* no voice or channel may go on using the old library */
+                if (result == EAS_SUCCESS)
+                {
+                    VMInitializeAllVoices(pEASData->pVoiceMgr, pSynth->vSynthNum);
+                    VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
+                }
+                return result;
+            }
 
         case PARSER_DATA_POLYPHONY:
             return VMSetPolyphony(pEASData->pVoiceMgr, pSynth, value);
-- 
2.43.0


From 9488b54ae21cdd3d756e173b9842f0f2a8e08113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 53/57] fix: a note without a sound library must be silent
 instead of reading address zero

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 1676b78..170a6b5 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1856,6 +1856,10 @@ void VMStartNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_U
 
     /* braces here for #if clause */
     {
+        /* without a sound library there is nothing to play */
+        if (pSynth->pEAS == NULL)
+            return;
+
         /* EAS voice */
         for (;;)
         {
-- 
2.43.0


From 9dad13aae910a9e904cd0b5f7a58e51fc1e32d67 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 54/57] fix: a note must prefer to take the voice of the same
 note in every player, not in the first only

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 170a6b5..1aa4388 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2132,7 +2132,7 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         }
 
         /* if a note is already playing that matches this note, consider stealing it more readily */
-        if ((note == currNote) && (channel == currChannel))
+        if ((note == currNote) && (VSynthToChannel(pSynth, channel) == currChannel))
             currentPriority += NOTE_MATCH_PENALTY;
 
         /* is this the best choice so far? */
-- 
2.43.0


From c1c3ccc4fd92f8551d2f8e3585f56ae3c6ccfc87 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 55/57] fix: note ages must start over when no voice is left,
 the 65536th note of an instance upset voice stealing

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 1aa4388..68fc312 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1372,6 +1372,10 @@ static void VMFreeVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOICE
     pSynth->numActiveVoices--;
     InitVoice(pVoice);
 
+    /* with no voice left to compare, note ages start over */
+    if (pVoiceMgr->activeVoices == 0)
+        pVoiceMgr->age = 0;
+
 #ifdef _DEBUG_VM
     { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMFreeVoice: free voice %d\n", pVoice - pVoiceMgr->voices); */ }
 #endif
-- 
2.43.0


From 30b555420661e5a5cfb6ba66dcd8d1bb928dfb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:14 +0000
Subject: [PATCH 56/57] fix: a note muted by its key group must stay muted when
 its voice is retargeted, it rang on with the note replacing it

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 68fc312..94ed15c 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1470,6 +1470,10 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
         pNextSynth->synthFlags |= SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING;
     }
 
+    /* was the new note already muted by another note of its key group? */
+    if (flags & VOICE_FLAG_DEFER_MUTE)
+        pVoice->voiceFlags |= VOICE_FLAG_DEFER_MUTE;
+
     return EAS_TRUE;
 }
 
-- 
2.43.0


From cc56a8c473fa84ca6dc6f54d173de16f8c460d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:19 +0000
Subject: [PATCH 57/57] fix: songs longer than 2 h 20 min or 134 million ticks
 must be measured and played to their end

---
 arm-wt-22k/lib_src/eas_public.c | 2 +-
 arm-wt-22k/lib_src/eas_smf.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 451769d..4b645fd 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1456,7 +1456,7 @@ EAS_PUBLIC EAS_RESULT EAS_ParseMetaData (EAS_DATA_HANDLE pEASData, EAS_HANDLE pS
     /* parse the file to end */
     pStream->time = 0;
     VMInitWorkload(pEASData->pVoiceMgr);
-    if ((result = EAS_ParseEvents(pEASData, pStream, 0x7fffffff, eParserModeMetaData)) != EAS_SUCCESS)
+    if ((result = EAS_ParseEvents(pEASData, pStream, 0xffffffff, eParserModeMetaData)) != EAS_SUCCESS)
         return result;
 
     /* get the parser time */
diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index d581e9f..4aae06f 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -359,7 +359,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     }
 
     /* find next event in all streams */
-    temp = 0x7ffffff;
+    temp = 0x7fffffff;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
-- 
2.43.0

