From 59078a9d1d34c01f7550b90d74f1f148630b3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 01/13] fix: resolve the target of an alias that is created
 onto another alias

MemorySim_CreateAlias() kept the unresolved redirect address when that
address was itself inside of an alias.  Accesses through the new alias
were then translated relative to the wrong region base and indexed
outside of the target's host buffer.
---
 libCrashDebug/src/MemorySim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..c8310b5 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -216,8 +216,8 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
         pRegion->baseAddress = aliasAddress;
-        pRegion->redirectAddress = redirectAddress;
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
+        pRegion->redirectAddress = redirectAddress;
         uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
-- 
2.43.0


From b6df240bb7e24f4d84f80dcc3aa6a3a17a6572e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 02/13] fix: keep the end address of break/watchpoints from
 wrapping to 0

A breakpoint, watchpoint or access which ended at the very top of the
32-bit address space had an end address of 0.  Covered accesses were
missed and unrelated accesses reported.
---
 libCrashDebug/src/MemorySim.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index c8310b5..e3ce447 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -78,7 +78,7 @@ static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, A
 static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type);
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress);
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress);
 
 static uint32_t read32(IMemory* pMemory, uint32_t address);
 static uint16_t read16(IMemory* pMemory, uint32_t address);
@@ -93,7 +93,7 @@ struct Watchpoint
 {
     WatchpointType type;
     uint32_t       startAddress;
-    uint32_t       endAddress;
+    uint64_t       endAddress;
 
 };
 
@@ -459,7 +459,7 @@ __throws void MemorySim_SetHardwareBreakpoint(IMemory* pMemory, uint32_t address
 static void setWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -536,7 +536,7 @@ __throws void MemorySim_ClearHardwareBreakpoint(IMemory* pMemory, uint32_t addre
 static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -622,7 +622,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type)
 {
-    uint32_t endAddress = address + size;
+    uint64_t endAddress = (uint64_t)address + size;
     uint32_t i;
 
     for (i = 0 ; i < pRegion->watchpointCount ; i++)
@@ -647,7 +647,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
     }
 }
 
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress)
 {
     return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
 }
-- 
2.43.0


From cc0428fd685f8f551b9e8a990f16bb30d76b23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 03/13] fix: reject ELF ranges whose offset + size wraps 32
 bits

fetchSizedByteArray() added the 32-bit offset and size before comparing
with the size of the file, so that a program header with a huge p_filesz
passed the check and the load then read outside of the file's contents.
---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..cb1f9cd 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From 9b8c89c34bbc68e48e5a7e5e48f5ee1a8bd92dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 04/13] fix: don't load memory words which aren't in the GDB
 log

The newline at the end of a GDB memory line holding less than 4 values,
and any other text which isn't a number, was parsed as an extra value of
0.  That grew the memory region by words which were never dumped and
could overwrite the words of the next line.
---
 libCrashDebug/src/GdbLogParser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..7abbd87 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -240,6 +240,8 @@ static ParseResults parseMemoryLine(const char* pLine)
     pLine = parseAddress(&results, pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
         pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    if (results.valueCount == 0)
+        results.type = TYPE_OTHER;
     return results;
 }
 
@@ -299,8 +301,12 @@ static const char* skipSymbol(const char* pLine)
 
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
-    char* pNext = NULL;
-    pResults->values[pResults->valueCount++] = strtoul(pLine, &pNext, 0);
+    char*    pNext = NULL;
+    uint32_t value = strtoul(pLine, &pNext, 0);
+    // Ignore the rest of the line if it doesn't contain another value (ie. just the newline is left).
+    if (pNext == pLine)
+        return pLine + strlen(pLine);
+    pResults->values[pResults->valueCount++] = value;
     return pNext;
 }
 
-- 
2.43.0


From 646558d1bbf03e418e524c409130585d86b01dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 05/13] fix: reject hexadecimal dumps that end in the middle of
 a byte

A dump truncated after the first digit of a memory region header was
taken to have ended cleanly, silently dropping that region.
---
 libCrashDebug/src/CrashCatcherDump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 7baf723..c36c0e7 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -275,7 +275,7 @@ static int hexRead(Object* pObject, void* pBuffer, size_t bytesToRead)
             break;
         result = readNextCharacterSkippingNewLines(pObject, &loNibble);
         if (result != 1)
-            break;
+            __throw_msg(fileFormatException, "The dump file ended in the middle of a hexadecimal byte.");
         *pCurr++ = (nibbleDigitToVal(hiNibble) << 4) | nibbleDigitToVal(loNibble);
         bytesRead++;
     }
-- 
2.43.0


From c98737b4533f9021b0dd9b8b2852e3522df4a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 06/13] fix: don't leak or miss read counters when making a
 region read-only

MemorySim_MakeRegionReadOnly() leaked the first array of read counters when it
was called twice for a region and left a read-only region without counters
when their allocation failed.
---
 libCrashDebug/src/MemorySim.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e3ce447..81a7283 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -241,8 +241,8 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
-    pRegion->isReadOnly = 1;
     allocateReadCountArrayForReadOnlyRegion(pRegion);
+    pRegion->isReadOnly = 1;
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
@@ -270,6 +270,9 @@ static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, ui
 static void allocateReadCountArrayForReadOnlyRegion(MemoryRegion* pRegion)
 {
     uint32_t halfWordCount = pRegion->size / sizeof(uint16_t);
+
+    if (pRegion->pReadCounts)
+        return;
     pRegion->pReadCounts = throwingZeroedMalloc(halfWordCount * sizeof(uint32_t));
     pRegion->readCounts = halfWordCount;
 }
-- 
2.43.0


From 5c178723df2cd482b8f07c1825986f7f28d384e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 07/13] fix: fseekRestore() forgets the number of calls still
 to pass

A test that restored fseek() before all of the calls to pass were used up made
the next fseekSetReturn() let calls through before failing.
---
 libmocks/src/FileFailureInject.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmocks/src/FileFailureInject.c b/libmocks/src/FileFailureInject.c
index 491aa35..3968ac8 100644
--- a/libmocks/src/FileFailureInject.c
+++ b/libmocks/src/FileFailureInject.c
@@ -107,6 +107,7 @@ void fseekSetCallsBeforeFailure(int callCountToAllowBeforeFailing)
 void fseekRestore(void)
 {
     hook_fseek = fseek;
+    g_fseekCallsToPass = 0;
 }
 
 
-- 
2.43.0


From ecdea6b114e6094dc293f97e0971910d4adf6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 08/13] fix: end the session when stdin reaches its end

The POSIX Console_ReadStdIn() returned 0 characters forever once stdin was
closed, which kept the debug monitor spinning.  A short read or write is now a
fileException like it already was on Windows.
---
 main/MockDefaults.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index c5a29df..5265337 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -108,7 +108,7 @@ int Console_ReadStdIn()
     char    c = 0;
 
     result = read(STDIN_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != sizeof(c))
         __throw(fileException);
     return c;
 }
@@ -119,7 +119,7 @@ void Console_WriteStdOut(int character)
     char    c = (char)character;
 
     result = write(STDOUT_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != sizeof(c))
         __throw(fileException);
 }
 
-- 
2.43.0


From ca822d118845244e4cb7ea43bfd45aaaa3c607e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 09/13] fix: report a dump file which can't be read instead of
 taking it for a GDB log

A failing read of the first bytes (for example when the --dump filename is a
directory) made getFileType() treat the dump as an empty GDB log.
---
 libCrashDebug/src/CrashDebugCommandLine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 87a74a6..0ecf2a7 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -329,12 +329,16 @@ static void loadDumpFile(CrashDebugCommandLine* pThis)
 static DumpFileType getFileType(const char* pDumpFilename)
 {
     uint8_t fileHeader[4] = { 0, 0, 0, 0 };
+    int     readFailed = FALSE;
 
     FILE*   pFile = fopen(pDumpFilename, "rb");
     if (!pFile)
         __throw_msg(fileException, "Failed to open \"%s\".", pDumpFilename);
     fread(fileHeader, 1, sizeof(fileHeader), pFile);
+    readFailed = ferror(pFile);
     fclose(pFile);
+    if (readFailed)
+        __throw_msg(fileException, "Failed to read \"%s\".", pDumpFilename);
 
     if (hasBinaryCrashCatcherSignature(fileHeader))
         return CRASH_CATCHER_BIN;
-- 
2.43.0


From 3415f7bc0d6b53d28abe4085d1bf7bbecea65427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 10/13] fix: report a read error at the end of a memory region
 instead of taking it for the end of the dump

---
 libCrashDebug/src/CrashCatcherDump.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index c36c0e7..3f062d4 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -190,6 +190,8 @@ static int readNextMemoryRegion(Object* pObject)
     bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
     if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
         __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
+    else if (bytesRead == 0 && ferror(pObject->pFile))
+        __throw_msg(fileException, "Failed to read the dump file.");
     else if (bytesRead == 0)
         return TRUE;
     else if (bytesRead != sizeof(regionOrSentinel.region))
-- 
2.43.0


From fe43ac927b844b7366ca68a644c8a199a741d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 11/13] fix: use all nine bits of the exception number

---
 libCrashDebug/src/mriPlatform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/mriPlatform.c b/libCrashDebug/src/mriPlatform.c
index 8b0ce10..fa5963a 100644
--- a/libCrashDebug/src/mriPlatform.c
+++ b/libCrashDebug/src/mriPlatform.c
@@ -349,7 +349,7 @@ uint8_t Platform_DetermineCauseOfException(void)
 
 static uint32_t getCurrentlyExecutingExceptionNumber(void)
 {
-    return (g_pContext->exceptionPSR & 0xFF);
+    return (g_pContext->exceptionPSR & 0x1FF);
 }
 
 void Platform_DisplayFaultCauseToGdbConsole(void)
-- 
2.43.0


From 47ca611121f982df40259eb951775e2204f82a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:33 +0000
Subject: [PATCH 12/13] fix: list an alias of memory that was made read-only
 afterwards as flash

---
 libCrashDebug/src/MemorySim.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 81a7283..aaffdc5 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -407,12 +407,14 @@ static void appendMemoryMapRegions(MemorySim* pThis, SizedBuffer* pBuffer)
 
     while (pCurr)
     {
+        int isReadOnly = pCurr->isAlias ? pCurr->pRedirect->isReadOnly : pCurr->isReadOnly;
+
         bytesUsed = snprintf(pBuffer->pBuffer, pBuffer->size,
                              "<memory type=\"%s\" start=\"0x%X\" length=\"0x%X\">%s</memory>",
-                             pCurr->isReadOnly ? "flash" : "ram",
+                             isReadOnly ? "flash" : "ram",
                              pCurr->baseAddress,
                              pCurr->size,
-                             pCurr->isReadOnly ? " <property name=\"blocksize\">1</property>" : "");
+                             isReadOnly ? " <property name=\"blocksize\">1</property>" : "");
         assert (bytesUsed < (int)pBuffer->size);
         pBuffer->pBuffer += bytesUsed;
         pBuffer->size -= bytesUsed;
-- 
2.43.0


From ba38073f9215992d19942e63e5cf4e8441bd97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:46 +0000
Subject: [PATCH 13/13] fix: GDB log memory at address 0 is its own region when
 logged after the top of memory

The address expected next wrapped to 0 after a line that ends at the top of the
address space, so that a following line at address 0 was added to that region and
could not be loaded.
---
 libCrashDebug/src/GdbLogParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 7abbd87..f794546 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -25,7 +25,7 @@ typedef struct ParseObject
     RegisterContext* pContext;
     uint32_t         regionStart;
     uint32_t         regionSize;
-    uint32_t         nextExpectedAddress;
+    uint64_t         nextExpectedAddress;
     char             lineText[1024];
 } ParseObject;
 
@@ -148,7 +148,7 @@ static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pPa
         pObject->regionSize = 0;
     }
     pObject->regionSize += pParseResults->valueCount * sizeof(uint32_t);
-    pObject->nextExpectedAddress = pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
+    pObject->nextExpectedAddress = (uint64_t)pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
 }
 
 static void firstPassRegisterHandler(ParseObject* pObject, const ParseResults* pParseResults)
-- 
2.43.0

