From e8af84f74b11165a3d487c96b762649f61f24c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 1/5] fix: break/watchpoints ending at the top of the address
 space are missed or hit wrongly

The exclusive end address of an access or break/watchpoint which ends at 2^32 is
stored as 0, so comparing the end addresses missed such watchpoints and made
accesses to the last bytes hit every lower watchpoint. Compare sizes instead.
---
 libCrashDebug/src/MemorySim.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..ee6fec1 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -649,5 +649,9 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
 
 static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
 {
-    return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
+    /* The end addresses wrap around to 0 at the top of the address space so compare offsets and sizes instead. */
+    uint32_t offset = startAddress - pWatchpoint->startAddress;
+    uint32_t accessSize = endAddress - startAddress;
+    uint32_t watchpointSize = pWatchpoint->endAddress - pWatchpoint->startAddress;
+    return startAddress >= pWatchpoint->startAddress && (uint64_t)offset + accessSize <= watchpointSize;
 }
-- 
2.43.0


From 87e8b52b56397ffe10943e81297df151c942d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 2/5] fix: alias which redirects to another alias accesses host
 memory out of bounds

findMatchingRegion() translates redirectAddress when it hits an existing alias
but the alias kept the untranslated address, so its size limit and its data
offsets were computed relative to the wrong region.
---
 libCrashDebug/src/MemorySim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index ee6fec1..ec33f89 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -216,8 +216,8 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
         pRegion->baseAddress = aliasAddress;
-        pRegion->redirectAddress = redirectAddress;
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
+        pRegion->redirectAddress = redirectAddress;
         uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
-- 
2.43.0


From b0a55a0d9b19c9ee7fe144b2a5d41aa8e6df1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 3/5] fix: making a region read-only twice leaks its read
 counts, failing leaves it half read-only

A second call replaced (and leaked) the read count array. When the allocation of
the array failed, the region was already flagged as read-only without having an
array and MemorySim_GetFlashReadCount() dereferenced NULL.
---
 libCrashDebug/src/MemorySim.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index ec33f89..4903f20 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -241,8 +241,9 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
+    if (!pRegion->pReadCounts)
+        allocateReadCountArrayForReadOnlyRegion(pRegion);
     pRegion->isReadOnly = 1;
-    allocateReadCountArrayForReadOnlyRegion(pRegion);
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
-- 
2.43.0


From fd60ff8d25e08120d38f9c2d796f164d622f569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 4/5] fix: ELF segment or header whose offset plus size wraps
 32 bits is read out of bounds

---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..6b41817 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || (uint64_t)offset + size > pBlob->blobSize)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From 385800310f59b8dd98ca6c2c304929bbc2099b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 5/5] fix: GDB log lines with less than four values fabricate
 zero words in memory

Whitespace (ie. the line terminator returned by fgets) or text such as "Cannot
access memory at address" after the address or last value was parsed as
additional values of 0.
---
 libCrashDebug/src/GdbLogParser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..3e9a7de 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -240,6 +240,8 @@ static ParseResults parseMemoryLine(const char* pLine)
     pLine = parseAddress(&results, pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
         pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    if (results.valueCount == 0)
+        results.type = TYPE_OTHER;
     return results;
 }
 
@@ -300,7 +302,12 @@ static const char* skipSymbol(const char* pLine)
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
     char* pNext = NULL;
-    pResults->values[pResults->valueCount++] = strtoul(pLine, &pNext, 0);
+    uint32_t value = strtoul(pLine, &pNext, 0);
+
+    // Ignore the rest of the line if there is no value left (ie. line terminator or "Cannot access memory" text).
+    if (pNext == pLine)
+        return pLine + strlen(pLine);
+    pResults->values[pResults->valueCount++] = value;
     return pNext;
 }
 
-- 
2.43.0

