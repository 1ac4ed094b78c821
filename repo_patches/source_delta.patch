From a9bb267c40d512beb7140ca86e1900c444045cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 01/54] fix: read buffers must not serve stale or clobbered
 pages

---
 lib/Distribution/embedDB.c | 30 +++++++++++++++++++++++++++++-
 src/embedDB/embedDB.c      | 30 +++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..2c903d4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -489,6 +489,17 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 
+/**
+ * @brief	Forgets a page kept in a read buffer when its storage is about to change
+ * @param	bufferedPage	Physical page number held by the read buffer
+ * @param	startPage		First physical page that changes
+ * @param	endPage			Last physical page that changes (exclusive)
+ */
+static void invalidateBufferedPage(id_t *bufferedPage, id_t startPage, id_t endPage) {
+    if (*bufferedPage >= startPage && *bufferedPage < endPage)
+        *bufferedPage = -1;
+}
+
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
         printf(" " BYTE_TO_BINARY_PATTERN "", BYTE_TO_BINARY(*(bm + i)));
@@ -1565,6 +1576,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        invalidateBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2429,6 +2441,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
+        invalidateBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2448,6 +2461,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    invalidateBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2494,6 +2508,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
+        invalidateBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2504,6 +2519,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
+    invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2561,6 +2577,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
+        invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2573,6 +2590,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2628,6 +2646,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
     // Write to file
+    invalidateBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
 #ifndef PRINT
@@ -2654,6 +2673,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the data file
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2667,6 +2688,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the variable data file
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2686,6 +2709,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2711,6 +2736,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2735,7 +2762,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. A failed read may leave anything in the buffer
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..12adc36 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -65,6 +65,17 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 
+/**
+ * @brief	Forgets a page kept in a read buffer when its storage is about to change
+ * @param	bufferedPage	Physical page number held by the read buffer
+ * @param	startPage		First physical page that changes
+ * @param	endPage			Last physical page that changes (exclusive)
+ */
+static void invalidateBufferedPage(id_t *bufferedPage, id_t startPage, id_t endPage) {
+    if (*bufferedPage >= startPage && *bufferedPage < endPage)
+        *bufferedPage = -1;
+}
+
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
         printf(" " BYTE_TO_BINARY_PATTERN "", BYTE_TO_BINARY(*(bm + i)));
@@ -1141,6 +1152,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        invalidateBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2005,6 +2017,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
+        invalidateBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2024,6 +2037,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    invalidateBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2070,6 +2084,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
+        invalidateBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2080,6 +2095,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
+    invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2137,6 +2153,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
+        invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2149,6 +2166,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2204,6 +2222,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
     // Write to file
+    invalidateBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
 #ifndef PRINT
@@ -2230,6 +2249,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the data file
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2243,6 +2264,8 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page of the variable data file
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2262,6 +2285,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2287,6 +2312,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* A failed read may leave anything in the buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2311,7 +2338,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. A failed read may leave anything in the buffer
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
-- 
2.43.0


From 8b04aee7a1241a3d516bb3d6ea1413b17eac974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 02/54] fix: compare a new key with the last record of a
 partially filled page

---
 lib/Distribution/embedDB.c | 11 ++++++++---
 src/embedDB/embedDB.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2c903d4..ad60747 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1443,9 +1443,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the page with the previous key. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            /* The page may have been flushed before it was full, so the last record is given by its count */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 12adc36..8801fdc 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1019,9 +1019,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the page with the previous key. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            /* The page may have been flushed before it was full, so the last record is given by its count */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From 0bba37ffd6a85366b16e6a934735f64329b1e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 03/54] fix: record numbers above 127 were truncated to int8_t

---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index ad60747..2ceec4d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -765,7 +765,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -865,7 +865,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1881,7 +1881,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1910,7 +1910,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        id_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1988,7 +1988,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 8801fdc..b0616c8 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -341,7 +341,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -441,7 +441,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1457,7 +1457,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1486,7 +1486,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        id_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1564,7 +1564,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
-- 
2.43.0


From e61763143d5e21d7d9f35fa6af0fe56277b1499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 04/54] fix: binary search databases used a spline they do not
 have and ran below the first page

---
 lib/Distribution/embedDB.c | 10 +++++++---
 src/embedDB/embedDB.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2ceec4d..158556a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1599,7 +1599,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1830,6 +1830,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1841,6 +1843,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
@@ -2047,7 +2051,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2460,7 +2464,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b0616c8..f29d718 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1175,7 +1175,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1406,6 +1406,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1417,6 +1419,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
@@ -1623,7 +1627,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2036,7 +2040,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
-- 
2.43.0


From bdacb3f1afdf398a80d3ccc320c603fb81cec282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 05/54] fix: a failed page write or erase must not advance page
 ids or be ignored

---
 lib/Distribution/embedDB.c | 24 +++++++++++++++++++-----
 src/embedDB/embedDB.c      | 24 +++++++++++++++++++-----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 158556a..1147791 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1467,6 +1467,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to write page during embedDBPut.");
+#endif
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -2442,7 +2448,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2451,6 +2457,10 @@ id_t writePage(embedDBState *state, void *buffer) {
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
         invalidateBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
+        /* The content of the block is lost from here on, even if the erase fails and has to be repeated */
+        id_t minDataPageId = pageNum + state->eraseSizeInPages - state->numDataPages;
+        if (state->minDataPageId < minDataPageId)
+            state->minDataPageId = minDataPageId;
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2461,7 +2471,6 @@ id_t writePage(embedDBState *state, void *buffer) {
 
         /* Flag the pages as usable to EmbedDB */
         state->numAvailDataPages += state->eraseSizeInPages;
-        state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
         if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
@@ -2479,6 +2488,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2522,8 +2532,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2578,7 +2588,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2587,6 +2597,10 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
+        /* The content of the block is lost from here on, even if the erase fails and has to be repeated */
+        id_t minIndexPageId = pageNum + state->eraseSizeInPages - state->numIndexPages;
+        if (state->minIndexPageId < minIndexPageId)
+            state->minIndexPageId = minIndexPageId;
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2595,7 +2609,6 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
     }
 
     /* Seek to page location in file */
@@ -2608,6 +2621,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index f29d718..207bb9e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1043,6 +1043,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == -1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to write page during embedDBPut.");
+#endif
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -2018,7 +2024,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2027,6 +2033,10 @@ id_t writePage(embedDBState *state, void *buffer) {
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
         invalidateBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
+        /* The content of the block is lost from here on, even if the erase fails and has to be repeated */
+        id_t minDataPageId = pageNum + state->eraseSizeInPages - state->numDataPages;
+        if (state->minDataPageId < minDataPageId)
+            state->minDataPageId = minDataPageId;
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2037,7 +2047,6 @@ id_t writePage(embedDBState *state, void *buffer) {
 
         /* Flag the pages as usable to EmbedDB */
         state->numAvailDataPages += state->eraseSizeInPages;
-        state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
         if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
@@ -2055,6 +2064,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2098,8 +2108,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
@@ -2154,7 +2164,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2163,6 +2173,10 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
+        /* The content of the block is lost from here on, even if the erase fails and has to be repeated */
+        id_t minIndexPageId = pageNum + state->eraseSizeInPages - state->numIndexPages;
+        if (state->minIndexPageId < minIndexPageId)
+            state->minIndexPageId = minIndexPageId;
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2171,7 +2185,6 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailIndexPages += state->eraseSizeInPages;
-        state->minIndexPageId += state->eraseSizeInPages;
     }
 
     /* Seek to page location in file */
@@ -2184,6 +2197,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
-- 
2.43.0


From 61535ff0e57a27fc3b5657ef4136d72a2f176c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 06/54] fix: header of data pages was too small for its bitmap
 or min/max values

---
 lib/Distribution/embedDB.c | 10 +++++++---
 src/embedDB/embedDB.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 1147791..3c9b3f2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -528,7 +528,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
@@ -618,11 +618,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    /* The bitmap is kept in every data page, with or without an index file */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
+    /* The minimum and maximum values are stored from a fixed offset in the header */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        state->headerSize = max(state->headerSize, EMBEDDB_MIN_OFFSET) + state->keySize * 2 + state->dataSize * 2;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 207bb9e..56b8e5e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -104,7 +104,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
@@ -194,11 +194,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    /* The bitmap is kept in every data page, with or without an index file */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
+    /* The minimum and maximum values are stored from a fixed offset in the header */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        state->headerSize = max(state->headerSize, EMBEDDB_MIN_OFFSET) + state->keySize * 2 + state->dataSize * 2;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
-- 
2.43.0


From dda915f18d001b8b70aa0432cabc9640c01cc27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 07/54] fix: bitmap index entries were matched with the wrong
 data pages after a flush, restart or failed write

---
 lib/Distribution/embedDB.c | 114 +++++++++++++++++++++----------------
 lib/Distribution/embedDB.h |   1 +
 src/embedDB/embedDB.c      | 114 +++++++++++++++++++++----------------
 src/embedDB/embedDB.h      |   1 +
 4 files changed, 132 insertions(+), 98 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3c9b3f2..40d1d14 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -500,6 +500,38 @@ static void invalidateBufferedPage(id_t *bufferedPage, id_t startPage, id_t endP
         *bufferedPage = -1;
 }
 
+/**
+ * @brief	Starts a new page of bitmaps. The header keeps the id of the first data page that is described by the page.
+ */
+static void initIndexWriteBuffer(embedDBState *state) {
+    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    memcpy((int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_WRITE_BUFFER + EMBEDDB_IDX_START_OFFSET, &state->nextDataPageId, sizeof(id_t));
+}
+
+/**
+ * @brief	Ensures that the bitmap of one more data page fits in the index write buffer
+ * @return	0 if there is space, -1 if the full index page could not be written
+ */
+static int8_t makeIndexSpace(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_WRITE_BUFFER;
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        if (writeIndexPage(state, buf) == -1)
+            return -1;
+        initIndexWriteBuffer(state);
+    }
+    return 0;
+}
+
+/**
+ * @brief	Adds the bitmap of the data page in the data write buffer to the index write buffer
+ */
+static void addBitmapToIndex(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_WRITE_BUFFER;
+    count_t idxcount = EMBEDDB_GET_COUNT(buf);
+    EMBEDDB_INC_COUNT(buf);
+    memcpy((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount, EMBEDDB_GET_BITMAP(state->buffer), state->bitmapSize);
+}
+
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
         printf(" " BYTE_TO_BINARY_PATTERN "", BYTE_TO_BINARY(*(bm + i)));
@@ -1042,12 +1074,7 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
     /* Allocate third page of buffer as index output page */
-    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-    /* Add page id to minimum value spot in page */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-    id_t *ptr = ((id_t *)((int8_t *)buf + 8));
-    *ptr = state->nextDataPageId;
+    initIndexWriteBuffer(state);
 
     state->nextIdxPageId = 0;
     state->numAvailIndexPages = state->numIndexPages;
@@ -1469,6 +1496,13 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to write index page during embedDBPut.");
+#endif
+            return -1;
+        }
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
         if (pageNum == -1) {
@@ -1481,26 +1515,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         indexPage(state, pageNum);
 
         /* Save record in index file */
-        if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
-            EMBEDDB_INC_COUNT(buf);
-
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        if (EMBEDDB_USING_INDEX(state->parameters)) {
+            addBitmapToIndex(state);
         }
 
         updateMaxiumError(state, state->buffer);
@@ -2048,7 +2064,9 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            // Without memory for the bitmap every page is read
+            if (it->queryBitmap != NULL)
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
         }
     }
 
@@ -2125,6 +2143,13 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to write index page during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -2139,12 +2164,7 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        addBitmapToIndex(state);
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -2157,7 +2177,7 @@ int8_t embedDBFlush(embedDBState *state) {
         state->fileInterface->flush(state->indexFile);
 
         /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        initIndexWriteBuffer(state);
     }
 
     /* Reinitialize buffer */
@@ -2195,26 +2215,22 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         }
 
         // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
+        if (it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL && searchWriteBuf == 0) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
 
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+            // If the index page that contains this data page can be read, else we must read the data page regardless cause we don't have the index saved for it
+            if (indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId && readIndexPage(state, indexPage % state->numIndexPages) == 0) {
+                // Flushes and restarts leave index pages that are not full, so the page tells which data pages it describes
+                int8_t *indexBuf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+                id_t indexPageId = 0, firstDataPage = 0;
+                memcpy(&indexPageId, indexBuf, sizeof(id_t));
+                memcpy(&firstDataPage, indexBuf + EMBEDDB_IDX_START_OFFSET, sizeof(id_t));
+                id_t indexRec = it->nextDataPage - firstDataPage;
 
                 // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                if (indexPageId == indexPage && it->nextDataPage >= firstDataPage && indexRec < EMBEDDB_GET_COUNT(indexBuf) &&
+                    !bitmapOverlap(it->queryBitmap, (uint8_t *)indexBuf + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..8ebaa72 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -258,6 +258,7 @@ typedef uint16_t count_t;
 #define EMBEDDB_BITMAP_OFFSET 6
 // #define EMBEDDB_MIN_OFFSET		8
 #define EMBEDDB_MIN_OFFSET 14
+#define EMBEDDB_IDX_START_OFFSET 8
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 56b8e5e..9e7c691 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -76,6 +76,38 @@ static void invalidateBufferedPage(id_t *bufferedPage, id_t startPage, id_t endP
         *bufferedPage = -1;
 }
 
+/**
+ * @brief	Starts a new page of bitmaps. The header keeps the id of the first data page that is described by the page.
+ */
+static void initIndexWriteBuffer(embedDBState *state) {
+    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    memcpy((int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_WRITE_BUFFER + EMBEDDB_IDX_START_OFFSET, &state->nextDataPageId, sizeof(id_t));
+}
+
+/**
+ * @brief	Ensures that the bitmap of one more data page fits in the index write buffer
+ * @return	0 if there is space, -1 if the full index page could not be written
+ */
+static int8_t makeIndexSpace(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_WRITE_BUFFER;
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        if (writeIndexPage(state, buf) == -1)
+            return -1;
+        initIndexWriteBuffer(state);
+    }
+    return 0;
+}
+
+/**
+ * @brief	Adds the bitmap of the data page in the data write buffer to the index write buffer
+ */
+static void addBitmapToIndex(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_WRITE_BUFFER;
+    count_t idxcount = EMBEDDB_GET_COUNT(buf);
+    EMBEDDB_INC_COUNT(buf);
+    memcpy((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount, EMBEDDB_GET_BITMAP(state->buffer), state->bitmapSize);
+}
+
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
         printf(" " BYTE_TO_BINARY_PATTERN "", BYTE_TO_BINARY(*(bm + i)));
@@ -618,12 +650,7 @@ int8_t embedDBInitIndex(embedDBState *state) {
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
     /* Allocate third page of buffer as index output page */
-    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-    /* Add page id to minimum value spot in page */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-    id_t *ptr = ((id_t *)((int8_t *)buf + 8));
-    *ptr = state->nextDataPageId;
+    initIndexWriteBuffer(state);
 
     state->nextIdxPageId = 0;
     state->numAvailIndexPages = state->numIndexPages;
@@ -1045,6 +1072,13 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to write index page during embedDBPut.");
+#endif
+            return -1;
+        }
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
         if (pageNum == -1) {
@@ -1057,26 +1091,8 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         indexPage(state, pageNum);
 
         /* Save record in index file */
-        if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
-            EMBEDDB_INC_COUNT(buf);
-
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        if (EMBEDDB_USING_INDEX(state->parameters)) {
+            addBitmapToIndex(state);
         }
 
         updateMaxiumError(state, state->buffer);
@@ -1624,7 +1640,9 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            // Without memory for the bitmap every page is read
+            if (it->queryBitmap != NULL)
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
         }
     }
 
@@ -1701,6 +1719,13 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Failed to write index page during embedDBFlush.");
+#endif
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -1715,12 +1740,7 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        addBitmapToIndex(state);
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -1733,7 +1753,7 @@ int8_t embedDBFlush(embedDBState *state) {
         state->fileInterface->flush(state->indexFile);
 
         /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+        initIndexWriteBuffer(state);
     }
 
     /* Reinitialize buffer */
@@ -1771,26 +1791,22 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         }
 
         // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
+        if (it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL && searchWriteBuf == 0) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
 
-                // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+            // If the index page that contains this data page can be read, else we must read the data page regardless cause we don't have the index saved for it
+            if (indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId && readIndexPage(state, indexPage % state->numIndexPages) == 0) {
+                // Flushes and restarts leave index pages that are not full, so the page tells which data pages it describes
+                int8_t *indexBuf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+                id_t indexPageId = 0, firstDataPage = 0;
+                memcpy(&indexPageId, indexBuf, sizeof(id_t));
+                memcpy(&firstDataPage, indexBuf + EMBEDDB_IDX_START_OFFSET, sizeof(id_t));
+                id_t indexRec = it->nextDataPage - firstDataPage;
 
                 // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                if (indexPageId == indexPage && it->nextDataPage >= firstDataPage && indexRec < EMBEDDB_GET_COUNT(indexBuf) &&
+                    !bitmapOverlap(it->queryBitmap, (uint8_t *)indexBuf + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 5d9521b..e9b5d58 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -78,6 +78,7 @@ typedef uint16_t count_t;
 #define EMBEDDB_BITMAP_OFFSET 6
 // #define EMBEDDB_MIN_OFFSET		8
 #define EMBEDDB_MIN_OFFSET 14
+#define EMBEDDB_IDX_START_OFFSET 8
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
-- 
2.43.0


From c77eeb6a43cdfbd56461862f5b61522761c2710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:42 +0000
Subject: [PATCH 08/54] fix: in-page error estimate read records beyond the
 page and the slope of another page

---
 lib/Distribution/embedDB.c | 7 ++++---
 src/embedDB/embedDB.c      | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 40d1d14..3c1735e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1347,6 +1347,7 @@ float embedDBCalculateSlope(embedDBState *state, void *buffer) {
     uint32_t slopeX1, slopeX2;
     slopeX1 = 0;
     slopeX2 = EMBEDDB_GET_COUNT(buffer) - 1;
+    if(EMBEDDB_GET_COUNT(buffer) == 0) slopeX2 = 0;
 
     if (state->keySize <= 4) {
         uint32_t slopeY1 = 0, slopeY2 = 0;
@@ -1393,7 +1394,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         // get slope of keys within page
         float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
@@ -1422,9 +1423,9 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 9e7c691..96a7b1d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -969,7 +969,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         // get slope of keys within page
         float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
@@ -998,9 +998,9 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
-        for (int i = 0; i < state->maxRecordsPerPage; i++) {
+        for (int i = 0; i < EMBEDDB_GET_COUNT(buffer); i++) {
             // loop all keys in page
             memcpy(&currentKey, ((int8_t *)buffer + state->headerSize + state->recordSize * i), state->keySize);
 
-- 
2.43.0


From 943700568c1f24d20b33419079158275a4d9d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 09/54] fix: record-level consistency blocks were overrun after
 a flush, at a failed shift and at the end of the file

---
 lib/Distribution/embedDB.c | 18 +++++++++---------
 src/embedDB/embedDB.c      | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3c1735e..d62575e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -946,7 +946,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        int8_t eraseSuccess = state->fileInterface->erase(count % state->numDataPages, count % state->numDataPages + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -974,7 +974,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
          */
         if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
             uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
-            if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
+            if (numRecords > 0 && numRecords <= state->maxRecordsPerPage && (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount)) {
                 rlcMaxRecordCount = numRecords;
                 rlcMaxLogicialPageNumber = logicalPageId;
                 rlcMaxPage = numPagesRead;
@@ -1495,7 +1495,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
 #ifdef PRINT_ERRORS
@@ -1524,7 +1523,13 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
+    }
+
+    /* Need to move record level consistency pointers if the permanent pages have reached them */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        /* move record-level consistency blocks */
+        if (shiftRecordLevelConsistencyBlocks(state) != 0)
+            return -1;
     }
 
     /* Copy record onto page */
@@ -1582,11 +1587,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
-        }
         return writeTemporaryPage(state, state->buffer);
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 96a7b1d..5f213b7 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -522,7 +522,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        int8_t eraseSuccess = state->fileInterface->erase(count % state->numDataPages, count % state->numDataPages + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -550,7 +550,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
          */
         if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
             uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
-            if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
+            if (numRecords > 0 && numRecords <= state->maxRecordsPerPage && (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount)) {
                 rlcMaxRecordCount = numRecords;
                 rlcMaxLogicialPageNumber = logicalPageId;
                 rlcMaxPage = numPagesRead;
@@ -1070,7 +1070,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
 #ifdef PRINT_ERRORS
@@ -1099,7 +1098,13 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
+    }
+
+    /* Need to move record level consistency pointers if the permanent pages have reached them */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        /* move record-level consistency blocks */
+        if (shiftRecordLevelConsistencyBlocks(state) != 0)
+            return -1;
     }
 
     /* Copy record onto page */
@@ -1157,11 +1162,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
-        }
         return writeTemporaryPage(state, state->buffer);
     }
 
-- 
2.43.0


From c687ef09489430a3cf7831beaa21b2bac8b4b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 10/54] fix: a record acknowledged with record-level
 consistency was not flushed to storage

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d62575e..8155db7 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2561,7 +2561,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     /* Write temporary page to storage */
     invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
-    if (!writeSuccess) {
+    if (!writeSuccess || !state->fileInterface->flush(state->dataFile)) {
 #ifdef PRINT_ERRORS
         printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
 #endif
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5f213b7..29708ac 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2136,7 +2136,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     /* Write temporary page to storage */
     invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
-    if (!writeSuccess) {
+    if (!writeSuccess || !state->fileInterface->flush(state->dataFile)) {
 #ifdef PRINT_ERRORS
         printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
 #endif
-- 
2.43.0


From 9efba153a0289aa638ad4ba3681aa10193462e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 11/54] fix: a record must not be stored before its variable
 data or without it

---
 lib/Distribution/embedDB.c | 152 +++++++++++++++++++++++++++++--------
 src/embedDB/embedDB.c      | 152 +++++++++++++++++++++++++++++--------
 2 files changed, 240 insertions(+), 64 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8155db7..cd46ff8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -488,6 +488,9 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation);
+static int8_t writeVarBuffer(embedDBState *state);
+static int8_t writeVariableData(embedDBState *state, void *key, void *variableData, uint32_t length);
 
 /**
  * @brief	Forgets a page kept in a read buffer when its storage is about to change
@@ -1462,15 +1465,10 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
- * @param	state	embedDB algorithm state structure
- * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @brief	Checks that a key is larger than every key that was inserted before
+ * @return	Return 0 if the key can be inserted, 1 if it is out of order, and -1 if the previous key can not be read
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+static int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1493,6 +1491,40 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
             return 1;
         }
     }
+    return 0;
+}
+
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0)
+        return orderResult;
+
+    /* The variable data of a page must not be written after the page */
+    if (EMBEDDB_USING_VDATA(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && writeVarBuffer(state) != 0)
+        return -1;
+
+    state->recordHasVarData = 0;
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
+/**
+ * @brief	Puts a record whose key is in order into the structure.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	data			Data for record
+ * @param	dataLocation	Location of the variable data for the record, if it has any
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation) {
+    /* Copy record into block */
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
 
     /* Write current page if full */
     if (count >= state->maxRecordsPerPage) {
@@ -1538,13 +1570,10 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
         memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        if (dataLocation != EMBEDDB_NO_VAR_DATA && state->minVarRecordId == UINT64_MAX) {
+            memcpy(&state->minVarRecordId, key, state->keySize);
+        }
     }
 
     /* Update count */
@@ -1663,6 +1692,11 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0) {
+        return orderResult;
+    }
+
     // Insert their data
 
     /*
@@ -1671,29 +1705,62 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+        if (writeVarBuffer(state) != 0) {
+            return -1;
+        }
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
         state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+    }
+
+    /*
+     * The variable data is written before the record that points to it. If the insert fails, the next
+     * variable data takes its place.
+     */
+    id_t firstVarPageId = state->nextVarPageId;
+    uint32_t firstVarLoc = state->currentVarLoc;
+    uint64_t previousMaxKey = 0;
+    memcpy(&previousMaxKey, (int8_t *)buf + sizeof(id_t), state->keySize);
+    uint32_t dataLocation = state->nextVarPageId % state->numVarPages * state->pageSize + state->currentVarLoc % state->pageSize;
+
+    int8_t r = writeVariableData(state, key, variableData, length);
+    if (r == 0 && EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        r = embedDBFlushVar(state);
     }
 
     // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
-        return r;
+    if (r == 0) {
+        state->recordHasVarData = 1;
+        r = putRecord(state, key, data, dataLocation);
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    if (r != 0) {
+        if (state->nextVarPageId == firstVarPageId) {
+            state->currentVarLoc = firstVarLoc;
+            memcpy((int8_t *)buf + sizeof(id_t), &previousMaxKey, state->keySize);
+        } else {
+            state->currentVarLoc -= state->currentVarLoc % state->pageSize;
+            state->currentVarLoc += state->variableDataHeaderSize;
+        }
     }
 
+    return r;
+}
+
+/**
+ * @brief	Writes variable data at the current location of the variable data file.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	variableData	Variable length data for record
+ * @param	length			Length of the variable length data in bytes
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t writeVariableData(embedDBState *state, void *key, void *variableData, uint32_t length) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1703,7 +1770,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            state->currentVarLoc -= 1;  // stay on the page that could not be written
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1722,7 +1792,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                state->currentVarLoc -= 1;  // stay on the page that could not be written
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1731,10 +1804,6 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
-    }
-
     return 0;
 }
 
@@ -2109,6 +2178,26 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
+    if (writeVarBuffer(state) != 0) {
+        return -1;
+    }
+
+    /* Full pages may have been written earlier, so this is needed even if the buffer is empty */
+    if (!state->fileInterface->flush(state->varFile)) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
+    return 0;
+}
+
+/**
+ * @brief	Writes the variable data buffer to storage, if there is anything in it, and starts a new page.
+ * @param	state	algorithm state structure
+ * @returns 0 if successul and a non-zero value otherwise
+ */
+static int8_t writeVarBuffer(embedDBState *state) {
     /* Check if we actually have any variable data in the buffer */
     if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
         return 0;
@@ -2123,7 +2212,6 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 29708ac..401090d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -64,6 +64,9 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation);
+static int8_t writeVarBuffer(embedDBState *state);
+static int8_t writeVariableData(embedDBState *state, void *key, void *variableData, uint32_t length);
 
 /**
  * @brief	Forgets a page kept in a read buffer when its storage is about to change
@@ -1037,15 +1040,10 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
- * @param	state	embedDB algorithm state structure
- * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @brief	Checks that a key is larger than every key that was inserted before
+ * @return	Return 0 if the key can be inserted, 1 if it is out of order, and -1 if the previous key can not be read
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+static int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1068,6 +1066,40 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
             return 1;
         }
     }
+    return 0;
+}
+
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0)
+        return orderResult;
+
+    /* The variable data of a page must not be written after the page */
+    if (EMBEDDB_USING_VDATA(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage && writeVarBuffer(state) != 0)
+        return -1;
+
+    state->recordHasVarData = 0;
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
+/**
+ * @brief	Puts a record whose key is in order into the structure.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	data			Data for record
+ * @param	dataLocation	Location of the variable data for the record, if it has any
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation) {
+    /* Copy record into block */
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
 
     /* Write current page if full */
     if (count >= state->maxRecordsPerPage) {
@@ -1113,13 +1145,10 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
         memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        if (dataLocation != EMBEDDB_NO_VAR_DATA && state->minVarRecordId == UINT64_MAX) {
+            memcpy(&state->minVarRecordId, key, state->keySize);
+        }
     }
 
     /* Update count */
@@ -1238,6 +1267,11 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
+    int8_t orderResult = checkKeyOrder(state, key);
+    if (orderResult != 0) {
+        return orderResult;
+    }
+
     // Insert their data
 
     /*
@@ -1246,29 +1280,62 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+        if (writeVarBuffer(state) != 0) {
+            return -1;
+        }
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
         state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+    }
+
+    /*
+     * The variable data is written before the record that points to it. If the insert fails, the next
+     * variable data takes its place.
+     */
+    id_t firstVarPageId = state->nextVarPageId;
+    uint32_t firstVarLoc = state->currentVarLoc;
+    uint64_t previousMaxKey = 0;
+    memcpy(&previousMaxKey, (int8_t *)buf + sizeof(id_t), state->keySize);
+    uint32_t dataLocation = state->nextVarPageId % state->numVarPages * state->pageSize + state->currentVarLoc % state->pageSize;
+
+    int8_t r = writeVariableData(state, key, variableData, length);
+    if (r == 0 && EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        r = embedDBFlushVar(state);
     }
 
     // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
-        return r;
+    if (r == 0) {
+        state->recordHasVarData = 1;
+        r = putRecord(state, key, data, dataLocation);
     }
 
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    if (r != 0) {
+        if (state->nextVarPageId == firstVarPageId) {
+            state->currentVarLoc = firstVarLoc;
+            memcpy((int8_t *)buf + sizeof(id_t), &previousMaxKey, state->keySize);
+        } else {
+            state->currentVarLoc -= state->currentVarLoc % state->pageSize;
+            state->currentVarLoc += state->variableDataHeaderSize;
+        }
     }
 
+    return r;
+}
+
+/**
+ * @brief	Writes variable data at the current location of the variable data file.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key for record
+ * @param	variableData	Variable length data for record
+ * @param	length			Length of the variable length data in bytes
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t writeVariableData(embedDBState *state, void *key, void *variableData, uint32_t length) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+
     // Update the header to include the maximum key value stored on this page
     memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
 
@@ -1278,7 +1345,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == -1) {
+            state->currentVarLoc -= 1;  // stay on the page that could not be written
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1297,7 +1367,10 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == -1) {
+                state->currentVarLoc -= 1;  // stay on the page that could not be written
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1306,10 +1379,6 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         }
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
-    }
-
     return 0;
 }
 
@@ -1684,6 +1753,26 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
+    if (writeVarBuffer(state) != 0) {
+        return -1;
+    }
+
+    /* Full pages may have been written earlier, so this is needed even if the buffer is empty */
+    if (!state->fileInterface->flush(state->varFile)) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
+    return 0;
+}
+
+/**
+ * @brief	Writes the variable data buffer to storage, if there is anything in it, and starts a new page.
+ * @param	state	algorithm state structure
+ * @returns 0 if successul and a non-zero value otherwise
+ */
+static int8_t writeVarBuffer(embedDBState *state) {
     /* Check if we actually have any variable data in the buffer */
     if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
         return 0;
@@ -1698,7 +1787,6 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
-- 
2.43.0


From 06baa61dd5bd09b493c5309686719a2cb2ef4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:04 +0000
Subject: [PATCH 12/54] fix: iterating over variable data of records in the
 write buffer

---
 lib/Distribution/embedDB.c | 12 ++++++++----
 src/embedDB/embedDB.c      | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index cd46ff8..550150f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2093,7 +2093,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -2388,10 +2390,12 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    // the record is in the write buffer, so its variable data may be as well
+    if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 401090d..391fcbf 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1668,7 +1668,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -1963,10 +1965,12 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
         return 0;
     }
 
-    void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    // the record is in the write buffer, so its variable data may be as well
+    if (it->nextDataPage == state->nextDataPageId) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
-- 
2.43.0


From 3b1753a806d55c69724b04b21d35703572bed64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 13/54] fix: reading a variable data stream in pieces returned
 page headers or skipped bytes

---
 lib/Distribution/embedDB.c | 7 ++++++-
 src/embedDB/embedDB.c      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 550150f..c42690b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2496,6 +2496,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // If the last read ended with the page, skip past the header of the next one
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
@@ -2523,7 +2528,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 391fcbf..0e7b87d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2071,6 +2071,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // If the last read ended with the page, skip past the header of the next one
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
@@ -2098,7 +2103,7 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #ifdef PRINT_ERRORS
                 printf("ERROR: Couldn't read variable data page %d\n", pageNum);
 #endif
-                return 0;
+                return amtRead;
             }
             // Skip past the header
             stream->fileOffset += state->variableDataHeaderSize;
-- 
2.43.0


From ae49ed213cf18a2079c2d09b18ab7b87624612f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 14/54] fix: variable data page was read for its largest key
 after it had been erased

---
 lib/Distribution/embedDB.c | 27 +++++++++++++++++----------
 src/embedDB/embedDB.c      | 27 +++++++++++++++++----------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c42690b..7ed81da 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2762,6 +2762,23 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
+        id_t lastPageId = 0;
+        memcpy(&lastPageId, (int8_t *)buf - sizeof(id_t), sizeof(id_t));
+        // The page is not there anymore if an earlier erase failed after it erased the page
+        if (lastPageId == state->nextVarPageId + state->eraseSizeInPages - 1 - state->numVarPages) {
+            memcpy(&state->minVarRecordId, buf, state->keySize);
+            state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        }
+
+        invalidateBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2770,16 +2787,6 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
     }
 
     // Add logical page number to data page
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 0e7b87d..13772e1 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2337,6 +2337,23 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
+        id_t lastPageId = 0;
+        memcpy(&lastPageId, (int8_t *)buf - sizeof(id_t), sizeof(id_t));
+        // The page is not there anymore if an earlier erase failed after it erased the page
+        if (lastPageId == state->nextVarPageId + state->eraseSizeInPages - 1 - state->numVarPages) {
+            memcpy(&state->minVarRecordId, buf, state->keySize);
+            state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        }
+
+        invalidateBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2345,16 +2362,6 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
     }
 
     // Add logical page number to data page
-- 
2.43.0


From eef239055b20d84ecccc1dfff1ca47b3504151ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 15/54] fix: embedDBFlush reported success for data that was
 not flushed

---
 lib/Distribution/embedDB.c | 47 +++++++++++++++++++++++---------------
 src/embedDB/embedDB.c      | 47 +++++++++++++++++++++++---------------
 2 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7ed81da..5c46ee4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2231,8 +2231,26 @@ static int8_t writeVarBuffer(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
+
+    // Flush var data page before the records that point to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
+    // Full pages may have been written by earlier inserts, so the files are flushed even if the buffer is empty
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        if (!state->fileInterface->flush(state->dataFile))
+            return -1;
+        if (EMBEDDB_USING_INDEX(state->parameters) && !state->fileInterface->flush(state->indexFile))
+            return -1;
         return 0;
+    }
 
     if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
 #ifdef PRINT_ERRORS
@@ -2249,13 +2267,19 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
-
     indexPage(state, pageNum);
 
+    if (EMBEDDB_USING_INDEX(state->parameters))
+        addBitmapToIndex(state);
+
+    /* Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
+    if (!state->fileInterface->flush(state->dataFile))
+        return -1;
+
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        addBitmapToIndex(state);
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -2265,24 +2289,11 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initIndexWriteBuffer(state);
-    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
-
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
+        if (!state->fileInterface->flush(state->indexFile))
             return -1;
-        }
     }
     return 0;
 }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 13772e1..e167201 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1806,8 +1806,26 @@ static int8_t writeVarBuffer(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
+
+    // Flush var data page before the records that point to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
+    // Full pages may have been written by earlier inserts, so the files are flushed even if the buffer is empty
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        if (!state->fileInterface->flush(state->dataFile))
+            return -1;
+        if (EMBEDDB_USING_INDEX(state->parameters) && !state->fileInterface->flush(state->indexFile))
+            return -1;
         return 0;
+    }
 
     if (EMBEDDB_USING_INDEX(state->parameters) && makeIndexSpace(state) != 0) {
 #ifdef PRINT_ERRORS
@@ -1824,13 +1842,19 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
-
     indexPage(state, pageNum);
 
+    if (EMBEDDB_USING_INDEX(state->parameters))
+        addBitmapToIndex(state);
+
+    /* Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
+    if (!state->fileInterface->flush(state->dataFile))
+        return -1;
+
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        addBitmapToIndex(state);
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -1840,24 +1864,11 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initIndexWriteBuffer(state);
-    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
-
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
+        if (!state->fileInterface->flush(state->indexFile))
             return -1;
-        }
     }
     return 0;
 }
-- 
2.43.0


From 2f5512c35be54b496d018946a914486c6831ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 16/54] fix: an iterator read overwritten pages after the file
 wrapped

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5c46ee4..33d0021 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2308,6 +2308,11 @@ int8_t embedDBFlush(embedDBState *state) {
  */
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
+    // Pages the iterator has not reached yet may have been overwritten by new records
+    if (it->nextDataPage < state->minDataPageId) {
+        it->nextDataPage = state->minDataPageId;
+        it->nextDataRec = 0;
+    }
     while (1) {
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e167201..5a16c3d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1883,6 +1883,11 @@ int8_t embedDBFlush(embedDBState *state) {
  */
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
+    // Pages the iterator has not reached yet may have been overwritten by new records
+    if (it->nextDataPage < state->minDataPageId) {
+        it->nextDataPage = state->minDataPageId;
+        it->nextDataRec = 0;
+    }
     while (1) {
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
-- 
2.43.0


From 6989be60ed807cc2d12ab93047ba00f42741f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 17/54] fix: recovery of the data file did not find the oldest
 page or left a partially erased block

---
 lib/Distribution/embedDB.c | 76 +++++++++++++++++++++++++++-----------
 src/embedDB/embedDB.c      | 76 +++++++++++++++++++++++++++-----------
 2 files changed, 110 insertions(+), 42 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 33d0021..0e4ff0b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -481,7 +481,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -503,6 +503,21 @@ static void invalidateBufferedPage(id_t *bufferedPage, id_t startPage, id_t endP
         *bufferedPage = -1;
 }
 
+/**
+ * @brief	Erases a block of a file during recovery. Only the start of it may have been erased before the crash.
+ * @return	0 if successful, -1 if the block could not be erased
+ */
+static int8_t eraseDroppedBlock(embedDBState *state, id_t startPage, void *file, id_t *bufferedPage) {
+    invalidateBufferedPage(bufferedPage, startPage, startPage + state->eraseSizeInPages);
+    if (state->fileInterface->erase(startPage, startPage + state->eraseSizeInPages, state->pageSize, file) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to erase block during recovery!\n");
+#endif
+        return -1;
+    }
+    return 0;
+}
+
 /**
  * @brief	Starts a new page of bitmaps. The header keeps the id of the first data page that is described by the page.
  */
@@ -797,6 +812,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -811,6 +827,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
+            physicalPageIDOfSmallestData = physicalPageId;
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
@@ -844,9 +861,13 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that this is the first page we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+
+    /* if the first block has no valid page, the database was about to write to it */
+    if (physicalPageIDOfSmallestData != 0 && eraseDroppedBlock(state, 0, state->dataFile, &state->bufferedPageId) != 0) {
+        return -1;
+    }
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -857,31 +878,36 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
+        /* check if data is valid or if it is junk. If we have wrapped, this is the oldest block that is left */
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = moreToRead && maxLogicalPageId + 1 + pagesToBlockBoundary >= state->numDataPages &&
+                    logicalPageId == maxLogicalPageId + 1 + pagesToBlockBoundary - state->numDataPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* the block that is written next may still have older records */
+            if (pagesToBlockBoundary == blockSize && maxLogicalPageId + 1 >= state->numDataPages && eraseDroppedBlock(state, count, state->dataFile, &state->bufferedPageId) != 0) {
+                return -1;
+            }
         }
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -895,6 +921,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasPermanentData = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -912,6 +939,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
+            physicalPageIDOfSmallestData = physicalPageId;
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
@@ -1028,15 +1056,15 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first page we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     int8_t readSuccess = readPage(state, physicalPageId);
     if (readSuccess == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = maxLogicalPageId + 1 + pagesToBlockBoundary + 2 * blockSize >= state->numDataPages &&
+                    logicalPageId == maxLogicalPageId + 1 + pagesToBlockBoundary + 2 * blockSize - state->numDataPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -1045,29 +1073,35 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0)
+            return -1;
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5a16c3d..3d7a04e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -57,7 +57,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -79,6 +79,21 @@ static void invalidateBufferedPage(id_t *bufferedPage, id_t startPage, id_t endP
         *bufferedPage = -1;
 }
 
+/**
+ * @brief	Erases a block of a file during recovery. Only the start of it may have been erased before the crash.
+ * @return	0 if successful, -1 if the block could not be erased
+ */
+static int8_t eraseDroppedBlock(embedDBState *state, id_t startPage, void *file, id_t *bufferedPage) {
+    invalidateBufferedPage(bufferedPage, startPage, startPage + state->eraseSizeInPages);
+    if (state->fileInterface->erase(startPage, startPage + state->eraseSizeInPages, state->pageSize, file) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to erase block during recovery!\n");
+#endif
+        return -1;
+    }
+    return 0;
+}
+
 /**
  * @brief	Starts a new page of bitmaps. The header keeps the id of the first data page that is described by the page.
  */
@@ -373,6 +388,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -387,6 +403,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         numRecords = EMBEDDB_GET_COUNT(buffer);
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
+            physicalPageIDOfSmallestData = physicalPageId;
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
@@ -420,9 +437,13 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that this is the first page we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+
+    /* if the first block has no valid page, the database was about to write to it */
+    if (physicalPageIDOfSmallestData != 0 && eraseDroppedBlock(state, 0, state->dataFile, &state->bufferedPageId) != 0) {
+        return -1;
+    }
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -433,31 +454,36 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
+        /* check if data is valid or if it is junk. If we have wrapped, this is the oldest block that is left */
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = moreToRead && maxLogicalPageId + 1 + pagesToBlockBoundary >= state->numDataPages &&
+                    logicalPageId == maxLogicalPageId + 1 + pagesToBlockBoundary - state->numDataPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalPageId;
+
+            /* the block that is written next may still have older records */
+            if (pagesToBlockBoundary == blockSize && maxLogicalPageId + 1 >= state->numDataPages && eraseDroppedBlock(state, count, state->dataFile, &state->bufferedPageId) != 0) {
+                return -1;
+            }
         }
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -471,6 +497,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasPermanentData = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -488,6 +515,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
+            physicalPageIDOfSmallestData = physicalPageId;
             maxLogicalPageId = logicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
@@ -604,15 +632,15 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first page we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     int8_t readSuccess = readPage(state, physicalPageId);
     if (readSuccess == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
+        validData = maxLogicalPageId + 1 + pagesToBlockBoundary + 2 * blockSize >= state->numDataPages &&
+                    logicalPageId == maxLogicalPageId + 1 + pagesToBlockBoundary + 2 * blockSize - state->numDataPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
@@ -621,29 +649,35 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0)
+            return -1;
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
-- 
2.43.0


From 33f25825616a11e9e4a60f37f7373fab42c96705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 18/54] fix: recovery of the variable data file lost a single
 page and left partially erased blocks

---
 lib/Distribution/embedDB.c | 60 ++++++++++++++++++++++++++++----------
 src/embedDB/embedDB.c      | 60 ++++++++++++++++++++++++++++----------
 2 files changed, 88 insertions(+), 32 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0e4ff0b..971af2c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1232,6 +1232,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    bool firstPageUncertain = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
     /* This will equal 0 if there are no pages to read */
@@ -1241,7 +1243,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     uint32_t i = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = logicalVariablePageId % state->numVarPages == count && logicalVariablePageId != UINT32_MAX;
         if (validData) {
             uint64_t largestVarRecordId = 0;
             /* Fetch the largest key value for which we have data on this page */
@@ -1250,13 +1252,20 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
              * So we go to the next page to check if it is valid as well.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
-                i = 2;
-                hasData = true;
-                maxLogicalVariablePageId = logicalVariablePageId;
+            if (logicalVariablePageId == 0 && largestVarRecordId == 0) {
+                firstPageUncertain = true;
+                validData = readVariablePage(state, 1) == 0;
+                memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+                validData = validData && logicalVariablePageId == 1;
             }
-            physicalVariablePageId++;
-            count++;
+        }
+        if (validData) {
+            i = 2;
+            hasData = true;
+            physicalPageIDOfSmallestData = physicalVariablePageId;
+            maxLogicalVariablePageId = logicalVariablePageId;
+            physicalVariablePageId = logicalVariablePageId % state->numVarPages + 1;
+            count = physicalVariablePageId;
         } else {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
@@ -1266,6 +1275,15 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
     }
 
+    /* The first page may be the only page */
+    if (!hasData && firstPageUncertain) {
+        hasData = true;
+        maxLogicalVariablePageId = 0;
+        physicalVariablePageId = 1;
+        count = 1;
+        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    }
+
     /* if we have no valid data, we just have an empty file can can start from the scratch */
     if (!hasData)
         return 0;
@@ -1285,9 +1303,18 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that this is the first page we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+
+    /* If the whole file is in use, the first page that is not distinguishable from an erased page may have been erased */
+    if (firstPageUncertain && count == state->numVarPages && count > blockSize) {
+        physicalPageIDOfSmallestData = blockSize;
+    }
+
+    /* if the first block has no valid page, the database was about to write to it */
+    if (physicalPageIDOfSmallestData != 0 && eraseDroppedBlock(state, 0, state->varFile, &state->bufferedVarPage) != 0) {
+        return -1;
+    }
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
@@ -1298,18 +1325,19 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
+        /* check if data is valid or if it is junk. If we have wrapped, this is the oldest block that is left */
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
+        validData = moreToRead && maxLogicalVariablePageId + 1 + pagesToBlockBoundary >= state->numVarPages &&
+                    logicalVariablePageId == maxLogicalVariablePageId + 1 + pagesToBlockBoundary - state->numVarPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* the block that is written next may still have older variable data */
+            if (pagesToBlockBoundary == blockSize && maxLogicalVariablePageId + 1 >= state->numVarPages && eraseDroppedBlock(state, count, state->varFile, &state->bufferedVarPage) != 0) {
+                return -1;
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 3d7a04e..e5171d6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -808,6 +808,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    bool firstPageUncertain = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
     /* This will equal 0 if there are no pages to read */
@@ -817,7 +819,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     uint32_t i = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = logicalVariablePageId % state->numVarPages == count && logicalVariablePageId != UINT32_MAX;
         if (validData) {
             uint64_t largestVarRecordId = 0;
             /* Fetch the largest key value for which we have data on this page */
@@ -826,13 +828,20 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
              * Since 0 is a valid first page and a valid record key, we may have a case where this data is valid.
              * So we go to the next page to check if it is valid as well.
              */
-            if (logicalVariablePageId != 0 || largestVarRecordId != 0) {
-                i = 2;
-                hasData = true;
-                maxLogicalVariablePageId = logicalVariablePageId;
+            if (logicalVariablePageId == 0 && largestVarRecordId == 0) {
+                firstPageUncertain = true;
+                validData = readVariablePage(state, 1) == 0;
+                memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+                validData = validData && logicalVariablePageId == 1;
             }
-            physicalVariablePageId++;
-            count++;
+        }
+        if (validData) {
+            i = 2;
+            hasData = true;
+            physicalPageIDOfSmallestData = physicalVariablePageId;
+            maxLogicalVariablePageId = logicalVariablePageId;
+            physicalVariablePageId = logicalVariablePageId % state->numVarPages + 1;
+            count = physicalVariablePageId;
         } else {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
@@ -842,6 +851,15 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
     }
 
+    /* The first page may be the only page */
+    if (!hasData && firstPageUncertain) {
+        hasData = true;
+        maxLogicalVariablePageId = 0;
+        physicalVariablePageId = 1;
+        count = 1;
+        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    }
+
     /* if we have no valid data, we just have an empty file can can start from the scratch */
     if (!hasData)
         return 0;
@@ -861,9 +879,18 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that this is the first page we found.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+
+    /* If the whole file is in use, the first page that is not distinguishable from an erased page may have been erased */
+    if (firstPageUncertain && count == state->numVarPages && count > blockSize) {
+        physicalPageIDOfSmallestData = blockSize;
+    }
+
+    /* if the first block has no valid page, the database was about to write to it */
+    if (physicalPageIDOfSmallestData != 0 && eraseDroppedBlock(state, 0, state->varFile, &state->bufferedVarPage) != 0) {
+        return -1;
+    }
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
@@ -874,18 +901,19 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
+        /* check if data is valid or if it is junk. If we have wrapped, this is the oldest block that is left */
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
+        validData = moreToRead && maxLogicalVariablePageId + 1 + pagesToBlockBoundary >= state->numVarPages &&
+                    logicalVariablePageId == maxLogicalVariablePageId + 1 + pagesToBlockBoundary - state->numVarPages;
 
         /* this means we have wrapped and our start is actually here */
         if (validData) {
             physicalPageIDOfSmallestData = physicalVariablePageId;
+
+            /* the block that is written next may still have older variable data */
+            if (pagesToBlockBoundary == blockSize && maxLogicalVariablePageId + 1 >= state->numVarPages && eraseDroppedBlock(state, count, state->varFile, &state->bufferedVarPage) != 0) {
+                return -1;
+            }
         }
     }
 
-- 
2.43.0


From 61f569c6f8a375631511ff8409afec184c2eb949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 19/54] fix: recovery of the index file ignored erased blocks
 and erased across block boundaries

---
 lib/Distribution/embedDB.c | 58 ++++++++++++++++++++++++++++++--------
 src/embedDB/embedDB.c      | 58 ++++++++++++++++++++++++++++++--------
 2 files changed, 94 insertions(+), 22 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 971af2c..ee7e7db 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1156,6 +1156,15 @@ int8_t embedDBInitIndex(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks that a page of the index file holds bitmaps and belongs to its physical location
+ */
+static bool isIndexPageValid(embedDBState *state, void *buffer, id_t physicalPage) {
+    id_t logicalPage = 0;
+    memcpy(&logicalPage, buffer, sizeof(id_t));
+    return logicalPage % state->numIndexPages == physicalPage && EMBEDDB_GET_COUNT(buffer) > 0 && EMBEDDB_GET_COUNT(buffer) <= state->maxIdxRecordsPerPage;
+}
+
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
@@ -1166,30 +1175,57 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 
     bool haveWrappedInMemory = false;
     int count = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* The first block may have been erased, so has junk data and we need to start from the second block */
+    if (moreToRead && !isIndexPageValid(state, buffer, 0)) {
+        physicalIndexPageId = blockSize;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isIndexPageValid(state, buffer, physicalIndexPageId);
+        physicalPageIDOfSmallestData = physicalIndexPageId;
+        count = physicalIndexPageId;
+    }
+
+    id_t firstIndexPage = count;
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (count == firstIndexPage || logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+            haveWrappedInMemory = maxLogicaIndexPageId + 1 >= state->numIndexPages && logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
+    if (count == firstIndexPage)
         return 0;
 
+    /* If the first block has no valid page, the database was about to write to it */
+    if (firstIndexPage != 0 && eraseDroppedBlock(state, 0, state->indexFile, &state->bufferedIndexPageId) != 0)
+        return -1;
+
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    } else if (count < state->numIndexPages) {
+        /* If we have wrapped, the rest of the block is erased and the oldest page starts the next one */
+        id_t pagesToBlockBoundary = blockSize - (count % blockSize);
+        id_t nextBlock = (count + pagesToBlockBoundary) % state->numIndexPages;
+        if (maxLogicaIndexPageId + 1 + pagesToBlockBoundary >= state->numIndexPages && readIndexPage(state, nextBlock) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId == maxLogicaIndexPageId + 1 + pagesToBlockBoundary - state->numIndexPages) {
+                physicalPageIDOfSmallestData = nextBlock;
+                if (pagesToBlockBoundary == blockSize && maxLogicaIndexPageId + 1 >= state->numIndexPages && eraseDroppedBlock(state, count, state->indexFile, &state->bufferedIndexPageId) != 0)
+                    return -1;
+            }
+        }
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0)
+        return -1;
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
@@ -2791,20 +2827,20 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
+        // Erase index pages to make room for new page. After a restart the rest of a block that was erased before may be next
+        id_t pagesToBlockBoundary = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + pagesToBlockBoundary);
         /* The content of the block is lost from here on, even if the erase fails and has to be repeated */
-        id_t minIndexPageId = pageNum + state->eraseSizeInPages - state->numIndexPages;
+        id_t minIndexPageId = pageNum + pagesToBlockBoundary - state->numIndexPages;
         if (state->minIndexPageId < minIndexPageId)
             state->minIndexPageId = minIndexPageId;
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-        if (eraseResult != 1) {
+        if (pagesToBlockBoundary == state->eraseSizeInPages && state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile) != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
             return -1;
         }
-        state->numAvailIndexPages += state->eraseSizeInPages;
+        state->numAvailIndexPages += pagesToBlockBoundary;
     }
 
     /* Seek to page location in file */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e5171d6..30b16af 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -732,6 +732,15 @@ int8_t embedDBInitIndex(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Checks that a page of the index file holds bitmaps and belongs to its physical location
+ */
+static bool isIndexPageValid(embedDBState *state, void *buffer, id_t physicalPage) {
+    id_t logicalPage = 0;
+    memcpy(&logicalPage, buffer, sizeof(id_t));
+    return logicalPage % state->numIndexPages == physicalPage && EMBEDDB_GET_COUNT(buffer) > 0 && EMBEDDB_GET_COUNT(buffer) <= state->maxIdxRecordsPerPage;
+}
+
 int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
@@ -742,30 +751,57 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 
     bool haveWrappedInMemory = false;
     int count = 0;
+    count_t blockSize = state->eraseSizeInPages;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* The first block may have been erased, so has junk data and we need to start from the second block */
+    if (moreToRead && !isIndexPageValid(state, buffer, 0)) {
+        physicalIndexPageId = blockSize;
+        moreToRead = !(readIndexPage(state, physicalIndexPageId)) && isIndexPageValid(state, buffer, physicalIndexPageId);
+        physicalPageIDOfSmallestData = physicalIndexPageId;
+        count = physicalIndexPageId;
+    }
+
+    id_t firstIndexPage = count;
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (count == firstIndexPage || logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+            haveWrappedInMemory = maxLogicaIndexPageId + 1 >= state->numIndexPages && logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
+    if (count == firstIndexPage)
         return 0;
 
+    /* If the first block has no valid page, the database was about to write to it */
+    if (firstIndexPage != 0 && eraseDroppedBlock(state, 0, state->indexFile, &state->bufferedIndexPageId) != 0)
+        return -1;
+
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    } else if (count < state->numIndexPages) {
+        /* If we have wrapped, the rest of the block is erased and the oldest page starts the next one */
+        id_t pagesToBlockBoundary = blockSize - (count % blockSize);
+        id_t nextBlock = (count + pagesToBlockBoundary) % state->numIndexPages;
+        if (maxLogicaIndexPageId + 1 + pagesToBlockBoundary >= state->numIndexPages && readIndexPage(state, nextBlock) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId == maxLogicaIndexPageId + 1 + pagesToBlockBoundary - state->numIndexPages) {
+                physicalPageIDOfSmallestData = nextBlock;
+                if (pagesToBlockBoundary == blockSize && maxLogicaIndexPageId + 1 >= state->numIndexPages && eraseDroppedBlock(state, count, state->indexFile, &state->bufferedIndexPageId) != 0)
+                    return -1;
+            }
+        }
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0)
+        return -1;
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
@@ -2366,20 +2402,20 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
     if (state->numAvailIndexPages <= 0) {
-        // Erase index pages to make room for new page
-        invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
+        // Erase index pages to make room for new page. After a restart the rest of a block that was erased before may be next
+        id_t pagesToBlockBoundary = state->eraseSizeInPages - physicalPageNumber % state->eraseSizeInPages;
+        invalidateBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + pagesToBlockBoundary);
         /* The content of the block is lost from here on, even if the erase fails and has to be repeated */
-        id_t minIndexPageId = pageNum + state->eraseSizeInPages - state->numIndexPages;
+        id_t minIndexPageId = pageNum + pagesToBlockBoundary - state->numIndexPages;
         if (state->minIndexPageId < minIndexPageId)
             state->minIndexPageId = minIndexPageId;
-        int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-        if (eraseResult != 1) {
+        if (pagesToBlockBoundary == state->eraseSizeInPages && state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile) != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
 #endif
             return -1;
         }
-        state->numAvailIndexPages += state->eraseSizeInPages;
+        state->numAvailIndexPages += pagesToBlockBoundary;
     }
 
     /* Seek to page location in file */
-- 
2.43.0


From 01a62aba7ac3a3de93b77a976c5763510bdd638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 20/54] fix: record and header sizes above 127 bytes overflowed

---
 lib/Distribution/embedDB.h | 4 ++--
 src/embedDB/embedDB.h      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 8ebaa72..c027a9e 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -406,8 +406,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index e9b5d58..b7e977f 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -226,8 +226,8 @@ typedef struct {
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
     int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
-- 
2.43.0


From 5705ea204105d17fbe8242211eaf618c1392e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 21/54] fix: spline limits and estimates were wrong for large
 key ranges and near page 0

---
 lib/Distribution/embedDB.c | 61 +++++++++++++++++++++++++++++++++-----
 src/spline/spline.c        | 61 +++++++++++++++++++++++++++++++++-----
 2 files changed, 108 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index ee7e7db..68e0cd1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -97,18 +97,64 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compare y1 * x2 with y2 * x1, which may need more than 64 bits. The y values are differences of page numbers.
+ * @return   -1, 0, or 1 if the first product is smaller, equal, or larger
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    uint64_t absY1 = y1 < 0 ? -y1 : y1, absY2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = absY1 * (x2 & UINT32_MAX), low2 = absY2 * (x1 & UINT32_MAX);
+    uint64_t high1 = absY1 * (x2 >> 32) + (low1 >> 32), high2 = absY2 * (x1 >> 32) + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+
+    if (high1 == high2 && low1 == low2)
+        return 0;
+    int8_t larger = high1 > high2 || (high1 == high2 && low1 > low2);
+    return larger == (y1 >= 0) ? 1 : -1;
+}
+
+/**
+ * @brief    Calculates a * b / c without overflow, where a is not larger than c
+ */
+static uint32_t splineMulDiv(uint64_t a, uint32_t b, uint64_t c) {
+    uint32_t quotient = 0;
+    uint64_t remainder = 0;
+    for (int8_t i = 31; i >= 0 && c > 0; i--) {
+        quotient <<= 1;
+        if (remainder >= c - remainder) {
+            remainder -= c - remainder;
+            quotient++;
+        } else {
+            remainder += remainder;
+        }
+        if ((b >> i) & 1) {
+            if (remainder >= c - a) {
+                remainder -= c - a;
+                quotient++;
+            } else {
+                remainder += a;
+            }
+        }
+    }
+    return quotient;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
 }
 
 /**
@@ -169,6 +215,7 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
 
     uint64_t xdiff, upperXDiff, lowerXDiff = 0;
     uint32_t ydiff, upperYDiff = 0;
+    uint32_t lowerPageNumber = 0;
     int64_t lowerYDiff = 0; /* This may be negative */
 
     xdiff = keyVal - lastPointKey;
@@ -177,8 +224,8 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&upperYDiff, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
     upperYDiff -= lastPage;
     lowerXDiff = lowerKey - lastPointKey;
-    memcpy(&lowerYDiff, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
-    lowerYDiff -= lastPage;
+    memcpy(&lowerPageNumber, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
+    lowerYDiff = (int64_t)lowerPageNumber - lastPage;
 
     if (spl->count >= spl->size) {
         int8_t eraseResult = splineErase(spl, spl->eraseSize);
@@ -211,14 +258,14 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         /* Check if must update upper or lower limits */
 
         /* Upper limit */
-        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, page + spl->maxError - lastPage) == 1) {
+        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)page + spl->maxError - lastPage) == 1) {
             memcpy(spl->upper, key, spl->keySize);
             uint32_t upperPage = page + spl->maxError;
             memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)(page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
             uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
@@ -399,7 +446,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineMulDiv(keyVal - downKeyVal, upPage - downPage, upKeyVal - downKeyVal) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 131536b..a64ee9f 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -68,18 +68,64 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compare y1 * x2 with y2 * x1, which may need more than 64 bits. The y values are differences of page numbers.
+ * @return   -1, 0, or 1 if the first product is smaller, equal, or larger
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+
+    uint64_t absY1 = y1 < 0 ? -y1 : y1, absY2 = y2 < 0 ? -y2 : y2;
+    uint64_t low1 = absY1 * (x2 & UINT32_MAX), low2 = absY2 * (x1 & UINT32_MAX);
+    uint64_t high1 = absY1 * (x2 >> 32) + (low1 >> 32), high2 = absY2 * (x1 >> 32) + (low2 >> 32);
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+
+    if (high1 == high2 && low1 == low2)
+        return 0;
+    int8_t larger = high1 > high2 || (high1 == high2 && low1 > low2);
+    return larger == (y1 >= 0) ? 1 : -1;
+}
+
+/**
+ * @brief    Calculates a * b / c without overflow, where a is not larger than c
+ */
+static uint32_t splineMulDiv(uint64_t a, uint32_t b, uint64_t c) {
+    uint32_t quotient = 0;
+    uint64_t remainder = 0;
+    for (int8_t i = 31; i >= 0 && c > 0; i--) {
+        quotient <<= 1;
+        if (remainder >= c - remainder) {
+            remainder -= c - remainder;
+            quotient++;
+        } else {
+            remainder += remainder;
+        }
+        if ((b >> i) & 1) {
+            if (remainder >= c - a) {
+                remainder -= c - a;
+                quotient++;
+            } else {
+                remainder += a;
+            }
+        }
+    }
+    return quotient;
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
 }
 
 /**
@@ -140,6 +186,7 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
 
     uint64_t xdiff, upperXDiff, lowerXDiff = 0;
     uint32_t ydiff, upperYDiff = 0;
+    uint32_t lowerPageNumber = 0;
     int64_t lowerYDiff = 0; /* This may be negative */
 
     xdiff = keyVal - lastPointKey;
@@ -148,8 +195,8 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
     memcpy(&upperYDiff, (int8_t *)spl->upper + spl->keySize, sizeof(uint32_t));
     upperYDiff -= lastPage;
     lowerXDiff = lowerKey - lastPointKey;
-    memcpy(&lowerYDiff, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
-    lowerYDiff -= lastPage;
+    memcpy(&lowerPageNumber, (int8_t *)spl->lower + spl->keySize, sizeof(uint32_t));
+    lowerYDiff = (int64_t)lowerPageNumber - lastPage;
 
     if (spl->count >= spl->size) {
         int8_t eraseResult = splineErase(spl, spl->eraseSize);
@@ -182,14 +229,14 @@ void splineAdd(spline *spl, void *key, uint32_t page) {
         /* Check if must update upper or lower limits */
 
         /* Upper limit */
-        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, page + spl->maxError - lastPage) == 1) {
+        if (splineIsLeft(upperXDiff, upperYDiff, xdiff, (int64_t)page + spl->maxError - lastPage) == 1) {
             memcpy(spl->upper, key, spl->keySize);
             uint32_t upperPage = page + spl->maxError;
             memcpy((int8_t *)spl->upper + spl->keySize, &upperPage, sizeof(uint32_t));
         }
 
         /* Lower limit */
-        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
+        if (splineIsRight(lowerXDiff, lowerYDiff, xdiff, (int64_t)(page < spl->maxError ? 0 : page - spl->maxError) - lastPage) == 1) {
             memcpy(spl->lower, key, spl->keySize);
             uint32_t lowerPage = page < spl->maxError ? 0 : page - spl->maxError;
             memcpy((int8_t *)spl->lower + spl->keySize, &lowerPage, sizeof(uint32_t));
@@ -370,7 +417,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
 
     // Estimate location as page number
     // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    id_t locationEstimate = splineMulDiv(keyVal - downKeyVal, upPage - downPage, upKeyVal - downKeyVal) + downPage;
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
-- 
2.43.0


From 045bc78c9547676aa5a7c23e29bc0ad5942a301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 22/54] fix: embedDBInit ignored a failed allocation of the
 spline

---
 lib/Distribution/embedDB.c | 16 ++++++++++++++--
 lib/Distribution/embedDB.h |  3 ++-
 src/embedDB/embedDB.c      |  9 ++++++++-
 src/spline/spline.c        |  7 ++++++-
 src/spline/spline.h        |  3 ++-
 5 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 68e0cd1..2579bcf 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -80,7 +80,7 @@
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -95,6 +95,11 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return -1;
+    }
+    return 0;
 }
 
 /**
@@ -755,7 +760,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
             return -1;
         }
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate memory for the spline.");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     }
 
     /* Allocate file for data*/
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index c027a9e..bc0ed9a 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -112,8 +112,9 @@ struct spline_s {
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and -1 if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 30b16af..0a3c983 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -284,7 +284,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
             return -1;
         }
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate memory for the spline.");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     }
 
     /* Allocate file for data*/
diff --git a/src/spline/spline.c b/src/spline/spline.c
index a64ee9f..dafc2d7 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -51,7 +51,7 @@
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -66,6 +66,11 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return -1;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/spline/spline.h b/src/spline/spline.h
index 0d3f000..97100d4 100644
--- a/src/spline/spline.h
+++ b/src/spline/spline.h
@@ -70,8 +70,9 @@ struct spline_s {
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns zero if successful and -1 if there is not enough memory
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
-- 
2.43.0


From aac4293e45052b1687d9748b9bd0aba3588a4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 23/54] fix: 64-bit bitmap of a value range missed buckets of
 the range

---
 lib/Distribution/embedDB.c           | 26 ++++++++++++++++++++++----
 lib/EmbedDB-Utility/embedDBUtility.c | 26 ++++++++++++++++++++++----
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2579bcf..10aba28 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4652,8 +4652,17 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         uint64_t minMap = 0, maxMap = 0;
         if (min != NULL) {
             updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
+            // Turn on all bits after the bit for min value. The bits are ordered from the first to the last byte, and in a byte the lsb are for the higher values
+            uint8_t *map = (uint8_t *)&minMap;
+            int8_t found = 0;
+            for (int8_t i = 0; i < 8; i++) {
+                if (found) {
+                    map[i] = UINT8_MAX;
+                } else if (map[i] != 0) {
+                    map[i] = map[i] | (map[i] - 1);
+                    found = 1;
+                }
+            }
             if (max == NULL) {
                 *(uint64_t *)bm = minMap;
                 return;
@@ -4661,8 +4670,17 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         }
         if (max != NULL) {
             updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
+            // Turn on all bits before the bit for max value (cause the first bytes and the msb are for the lower values)
+            uint8_t *map = (uint8_t *)&maxMap;
+            int8_t found = 0;
+            for (int8_t i = 7; i >= 0; i--) {
+                if (found) {
+                    map[i] = UINT8_MAX;
+                } else if (map[i] != 0) {
+                    map[i] = ~(map[i] - 1);
+                    found = 1;
+                }
+            }
             if (min == NULL) {
                 *(uint64_t *)bm = maxMap;
                 return;
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..69f5bae 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -212,8 +212,17 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         uint64_t minMap = 0, maxMap = 0;
         if (min != NULL) {
             updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
+            // Turn on all bits after the bit for min value. The bits are ordered from the first to the last byte, and in a byte the lsb are for the higher values
+            uint8_t *map = (uint8_t *)&minMap;
+            int8_t found = 0;
+            for (int8_t i = 0; i < 8; i++) {
+                if (found) {
+                    map[i] = UINT8_MAX;
+                } else if (map[i] != 0) {
+                    map[i] = map[i] | (map[i] - 1);
+                    found = 1;
+                }
+            }
             if (max == NULL) {
                 *(uint64_t *)bm = minMap;
                 return;
@@ -221,8 +230,17 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         }
         if (max != NULL) {
             updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
+            // Turn on all bits before the bit for max value (cause the first bytes and the msb are for the lower values)
+            uint8_t *map = (uint8_t *)&maxMap;
+            int8_t found = 0;
+            for (int8_t i = 7; i >= 0; i--) {
+                if (found) {
+                    map[i] = UINT8_MAX;
+                } else if (map[i] != 0) {
+                    map[i] = ~(map[i] - 1);
+                    found = 1;
+                }
+            }
             if (min == NULL) {
                 *(uint64_t *)bm = maxMap;
                 return;
-- 
2.43.0


From 457fa54767c49b8d7498e858b8678ae697c3f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 24/54] fix: sum and average of signed columns wider than 4
 bytes had the wrong sign

---
 lib/Distribution/embedDB.c            | 4 ++--
 src/query-interface/advancedQueries.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 10aba28..b6ac9ef 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4139,7 +4139,7 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -4342,7 +4342,7 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..2d646d7 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -861,7 +861,7 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -1064,7 +1064,7 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        uint64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-- 
2.43.0


From e3d18abd31178f651102d8f2d34f693e4f89e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 25/54] fix: aggregate operator leaked its input, min/max
 aggregates leaked their value

---
 lib/Distribution/embedDB.c            | 25 ++++++++-----------------
 src/query-interface/advancedQueries.c | 25 ++++++++-----------------
 2 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b6ac9ef..46c91fd 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3880,7 +3880,6 @@ int8_t nextAggregate(embedDBOperator *op) {
 
 void closeAggregate(embedDBOperator *op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo *)op->state)->lastRecordBuffer);
     free(op->state);
@@ -4222,21 +4221,17 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState *state = malloc(sizeof(struct minMaxState));
+    // The current value is part of the state so that it is freed with it
+    struct minMaxState *state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating min aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = minReset;
@@ -4287,21 +4282,17 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState *state = malloc(sizeof(struct minMaxState));
+    // The current value is part of the state so that it is freed with it
+    struct minMaxState *state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating max aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = maxReset;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2d646d7..702e85d 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -602,7 +602,6 @@ int8_t nextAggregate(embedDBOperator* op) {
 
 void closeAggregate(embedDBOperator* op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo*)op->state)->lastRecordBuffer);
     free(op->state);
@@ -944,21 +943,17 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState* state = malloc(sizeof(struct minMaxState));
+    // The current value is part of the state so that it is freed with it
+    struct minMaxState* state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating min aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = minReset;
@@ -1009,21 +1004,17 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #endif
         return NULL;
     }
-    struct minMaxState* state = malloc(sizeof(struct minMaxState));
+    // The current value is part of the state so that it is freed with it
+    struct minMaxState* state = malloc(sizeof(struct minMaxState) + abs(colSize));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
-    state->current = malloc(abs(colSize));
-    if (state->current == NULL) {
-#ifdef PRINT_ERRORS
-        printf("ERROR: Failed to allocate while creating max aggregate function\n");
-#endif
-        return NULL;
-    }
+    state->current = state + 1;
     aggFunc->state = state;
     aggFunc->colSize = colSize;
     aggFunc->reset = maxReset;
-- 
2.43.0


From 3c91509ab1d70930809a0f531c0d69f00d137bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 26/54] fix: query operators used memory that could not be
 allocated

---
 lib/Distribution/embedDB.c            | 71 +++++++++++++++++++++++++--
 src/query-interface/advancedQueries.c | 61 +++++++++++++++++++++--
 src/query-interface/schema.c          | 10 ++++
 3 files changed, 132 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 46c91fd..ab058c3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3175,7 +3175,14 @@ void embedDBClose(embedDBState *state) {
  */
 embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *colSignedness) {
     embedDBSchema *schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -3186,6 +3193,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -3196,6 +3204,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
@@ -3241,6 +3250,7 @@ embedDBSchema *copySchema(const embedDBSchema *schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
@@ -3449,7 +3459,7 @@ void initTableScan(embedDBOperator *op) {
 
 int8_t nextTableScan(embedDBOperator *op) {
     // Check that a schema was set
-    if (op->schema == NULL) {
+    if (op->schema == NULL || op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Must provide a base schema for a table scan operator\n");
 #endif
@@ -3498,16 +3508,19 @@ embedDBOperator *createTableScanOperator(embedDBState *state, embedDBIterator *i
     }
 
     op->state = malloc(2 * sizeof(void *));
-    if (op->state == NULL) {
+    op->schema = copySchema(baseSchema);
+    if (op->state == NULL || op->schema == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op->state);
+        embedDBFreeSchema(&op->schema);
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void *));
     memcpy((int8_t *)op->state + sizeof(void *), &it, sizeof(void *));
 
-    op->schema = copySchema(baseSchema);
     op->input = NULL;
     op->recordBuffer = NULL;
 
@@ -3533,6 +3546,9 @@ void initProjection(embedDBOperator *op) {
     uint8_t numCols = *(uint8_t *)op->state;
     uint8_t *cols = (uint8_t *)op->state + 1;
     const embedDBSchema *inputSchema = op->input->schema;
+    if (inputSchema == NULL) {
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -3549,6 +3565,7 @@ void initProjection(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to allocate space for projection while building schema\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < numCols; i++) {
@@ -3572,6 +3589,9 @@ int8_t nextProjection(embedDBOperator *op) {
     uint8_t numCols = *(uint8_t *)op->state;
     uint8_t *cols = (uint8_t *)op->state + 1;
     embedDBSchema *inputSchema = op->input->schema;
+    if (op->recordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     // Get next record
     if (op->input->next(op->input)) {
@@ -3622,6 +3642,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -3654,9 +3675,12 @@ void initSelection(embedDBOperator *op) {
     op->input->init(op->input);
 
     // Init output schema
-    if (op->schema == NULL) {
+    if (op->schema == NULL && op->input->schema != NULL) {
         op->schema = copySchema(op->input->schema);
     }
+    if (op->schema == NULL) {
+        return;
+    }
 
     // Init output buffer
     if (op->recordBuffer == NULL) {
@@ -3673,6 +3697,9 @@ void initSelection(embedDBOperator *op) {
 int8_t nextSelection(embedDBOperator *op) {
     embedDBSchema *schema = op->input->schema;
     struct selectionInfo *state = op->state;
+    if (op->recordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     int8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
@@ -3729,6 +3756,7 @@ embedDBOperator *createSelectionOperator(embedDBOperator *input, int8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -3767,6 +3795,9 @@ void initAggregate(embedDBOperator *op) {
 
     struct aggregateInfo *state = op->state;
     state->isLastRecordUsable = 0;
+    if (op->input->schema == NULL) {
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -3783,6 +3814,7 @@ void initAggregate(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing aggregate operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < state->functionsLength; i++) {
@@ -3816,6 +3848,9 @@ void initAggregate(embedDBOperator *op) {
 int8_t nextAggregate(embedDBOperator *op) {
     struct aggregateInfo *state = op->state;
     embedDBOperator *input = op->input;
+    if (op->recordBuffer == NULL || state->lastRecordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     // Reset each operator
     for (int i = 0; i < state->functionsLength; i++) {
@@ -3914,6 +3949,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -3944,6 +3980,9 @@ void initKeyJoin(embedDBOperator *op) {
 
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
+    if (schema1 == NULL || schema2 == NULL) {
+        return;
+    }
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
@@ -3968,6 +4007,7 @@ void initKeyJoin(embedDBOperator *op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         memcpy(op->schema->columnSizes, schema1->columnSizes, schema1->numCols);
@@ -3975,7 +4015,9 @@ void initKeyJoin(embedDBOperator *op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    }
     if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while initializing join operator\n");
@@ -3992,6 +4034,9 @@ int8_t nextKeyJoin(embedDBOperator *op) {
     embedDBOperator *input2 = state->input2;
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
+    if (op->recordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     // We've already used this match
     void *record1 = input1->recordBuffer;
@@ -4077,6 +4122,7 @@ embedDBOperator *createKeyJoinOperator(embedDBOperator *input1, embedDBOperator
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -4110,10 +4156,17 @@ void countCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, vo
  */
 embedDBAggregateFunc *createCountAggregate() {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -4161,10 +4214,17 @@ void sumCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, void
  */
 embedDBAggregateFunc *createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t *)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -4386,6 +4446,7 @@ embedDBAggregateFunc *createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 702e85d..5c326e7 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -171,7 +171,7 @@ void initTableScan(embedDBOperator* op) {
 
 int8_t nextTableScan(embedDBOperator* op) {
     // Check that a schema was set
-    if (op->schema == NULL) {
+    if (op->schema == NULL || op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Must provide a base schema for a table scan operator\n");
 #endif
@@ -220,16 +220,19 @@ embedDBOperator* createTableScanOperator(embedDBState* state, embedDBIterator* i
     }
 
     op->state = malloc(2 * sizeof(void*));
-    if (op->state == NULL) {
+    op->schema = copySchema(baseSchema);
+    if (op->state == NULL || op->schema == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op->state);
+        embedDBFreeSchema(&op->schema);
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void*));
     memcpy((int8_t*)op->state + sizeof(void*), &it, sizeof(void*));
 
-    op->schema = copySchema(baseSchema);
     op->input = NULL;
     op->recordBuffer = NULL;
 
@@ -255,6 +258,9 @@ void initProjection(embedDBOperator* op) {
     uint8_t numCols = *(uint8_t*)op->state;
     uint8_t* cols = (uint8_t*)op->state + 1;
     const embedDBSchema* inputSchema = op->input->schema;
+    if (inputSchema == NULL) {
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -271,6 +277,7 @@ void initProjection(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to allocate space for projection while building schema\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < numCols; i++) {
@@ -294,6 +301,9 @@ int8_t nextProjection(embedDBOperator* op) {
     uint8_t numCols = *(uint8_t*)op->state;
     uint8_t* cols = (uint8_t*)op->state + 1;
     embedDBSchema* inputSchema = op->input->schema;
+    if (op->recordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     // Get next record
     if (op->input->next(op->input)) {
@@ -344,6 +354,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -376,9 +387,12 @@ void initSelection(embedDBOperator* op) {
     op->input->init(op->input);
 
     // Init output schema
-    if (op->schema == NULL) {
+    if (op->schema == NULL && op->input->schema != NULL) {
         op->schema = copySchema(op->input->schema);
     }
+    if (op->schema == NULL) {
+        return;
+    }
 
     // Init output buffer
     if (op->recordBuffer == NULL) {
@@ -395,6 +409,9 @@ void initSelection(embedDBOperator* op) {
 int8_t nextSelection(embedDBOperator* op) {
     embedDBSchema* schema = op->input->schema;
     struct selectionInfo* state = op->state;
+    if (op->recordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     int8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
@@ -451,6 +468,7 @@ embedDBOperator* createSelectionOperator(embedDBOperator* input, int8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -489,6 +507,9 @@ void initAggregate(embedDBOperator* op) {
 
     struct aggregateInfo* state = op->state;
     state->isLastRecordUsable = 0;
+    if (op->input->schema == NULL) {
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -505,6 +526,7 @@ void initAggregate(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing aggregate operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         for (uint8_t i = 0; i < state->functionsLength; i++) {
@@ -538,6 +560,9 @@ void initAggregate(embedDBOperator* op) {
 int8_t nextAggregate(embedDBOperator* op) {
     struct aggregateInfo* state = op->state;
     embedDBOperator* input = op->input;
+    if (op->recordBuffer == NULL || state->lastRecordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     // Reset each operator
     for (int i = 0; i < state->functionsLength; i++) {
@@ -636,6 +661,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -666,6 +692,9 @@ void initKeyJoin(embedDBOperator* op) {
 
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
+    if (schema1 == NULL || schema2 == NULL) {
+        return;
+    }
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
@@ -690,6 +719,7 @@ void initKeyJoin(embedDBOperator* op) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
+            embedDBFreeSchema(&op->schema);
             return;
         }
         memcpy(op->schema->columnSizes, schema1->columnSizes, schema1->numCols);
@@ -697,7 +727,9 @@ void initKeyJoin(embedDBOperator* op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    }
     if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while initializing join operator\n");
@@ -714,6 +746,9 @@ int8_t nextKeyJoin(embedDBOperator* op) {
     embedDBOperator* input2 = state->input2;
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
+    if (op->recordBuffer == NULL) {
+        return 0;  // init failed
+    }
 
     // We've already used this match
     void* record1 = input1->recordBuffer;
@@ -799,6 +834,7 @@ embedDBOperator* createKeyJoinOperator(embedDBOperator* input1, embedDBOperator*
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -832,10 +868,17 @@ void countCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, vo
  */
 embedDBAggregateFunc* createCountAggregate() {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -883,10 +926,17 @@ void sumCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, void
  */
 embedDBAggregateFunc* createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t*)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -1108,6 +1158,7 @@ embedDBAggregateFunc* createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5790949..17b0415 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -52,7 +52,14 @@
  */
 embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* colSignedness) {
     embedDBSchema* schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -63,6 +70,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -73,6 +81,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
@@ -118,6 +127,7 @@ embedDBSchema* copySchema(const embedDBSchema* schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
-- 
2.43.0


From 064535bb1518cc3a24122ebb395bd6485386a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 27/54] fix: key join returned rows after its inputs had ended

---
 lib/Distribution/embedDB.c            | 10 +++++++---
 src/query-interface/advancedQueries.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index ab058c3..de283ce 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3966,7 +3966,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 
 struct keyJoinInfo {
     embedDBOperator *input2;
-    int8_t firstCall;
+    int8_t firstCall;  // 1 before the first call of next, -1 if there are no more records
 };
 
 void initKeyJoin(embedDBOperator *op) {
@@ -4034,8 +4034,8 @@ int8_t nextKeyJoin(embedDBOperator *op) {
     embedDBOperator *input2 = state->input2;
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
-    if (op->recordBuffer == NULL) {
-        return 0;  // init failed
+    if (op->recordBuffer == NULL || state->firstCall < 0) {
+        return 0;  // init failed or there are no more records
     }
 
     // We've already used this match
@@ -4049,6 +4049,7 @@ int8_t nextKeyJoin(embedDBOperator *op) {
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->firstCall = -1;
             return 0;
         }
         goto check;
@@ -4060,18 +4061,21 @@ int8_t nextKeyJoin(embedDBOperator *op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->firstCall = -1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->firstCall = -1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->firstCall = -1;
                 return 0;
             }
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 5c326e7..aba8827 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -678,7 +678,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 
 struct keyJoinInfo {
     embedDBOperator* input2;
-    int8_t firstCall;
+    int8_t firstCall;  // 1 before the first call of next, -1 if there are no more records
 };
 
 void initKeyJoin(embedDBOperator* op) {
@@ -746,8 +746,8 @@ int8_t nextKeyJoin(embedDBOperator* op) {
     embedDBOperator* input2 = state->input2;
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
-    if (op->recordBuffer == NULL) {
-        return 0;  // init failed
+    if (op->recordBuffer == NULL || state->firstCall < 0) {
+        return 0;  // init failed or there are no more records
     }
 
     // We've already used this match
@@ -761,6 +761,7 @@ int8_t nextKeyJoin(embedDBOperator* op) {
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->firstCall = -1;
             return 0;
         }
         goto check;
@@ -772,18 +773,21 @@ int8_t nextKeyJoin(embedDBOperator* op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->firstCall = -1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->firstCall = -1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->firstCall = -1;
                 return 0;
             }
         }
-- 
2.43.0


From 722097a471f752b63b3d93807ce172761ded3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 28/54] fix: desktop driver ignored seek and close errors and
 overflowed offsets above 4 GB

---
 .../desktopFileInterface.c                    | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..07a13dd 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -24,13 +24,17 @@ void tearDownFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageSize * pageNum, SEEK_SET) != 0) {
+        return 0;
+    }
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageNum * pageSize, SEEK_SET) != 0) {
+        return 0;
+    }
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
@@ -41,18 +45,21 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = fseek(fileInfo->file, (long)startPage * pageSize, SEEK_SET);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-    size_t memorySize = (endPage - startPage) * pageSize;
+    size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
+    if (buffer == NULL) {
+        return 0;
+    }
     memset(buffer, 1, memorySize);
 
     /* Erase data */
@@ -63,9 +70,9 @@ int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize,
 
 int8_t FILE_CLOSE(void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fclose(fileInfo->file);
+    int closeResult = fclose(fileInfo->file);
     fileInfo->file = NULL;
-    return 1;
+    return closeResult == 0;
 }
 
 int8_t FILE_FLUSH(void *file) {
-- 
2.43.0


From d686992bcd231f95385320dd23ddf55cde06f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 29/54] fix: desktop driver used memory that could not be
 allocated

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 07a13dd..31b7183 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -7,8 +7,15 @@ typedef struct {
 
 void *setupFile(char *filename) {
     FILE_INFO *fileInfo = malloc(sizeof(FILE_INFO));
+    if (fileInfo == NULL) {
+        return NULL;
+    }
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->file = NULL;
     return fileInfo;
@@ -100,6 +107,9 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL) {
+        return NULL;
+    }
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
@@ -111,6 +121,9 @@ embedDBFileInterface *getFileInterface() {
 
 embedDBFileInterface *getMockEraseFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL) {
+        return NULL;
+    }
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
-- 
2.43.0


From dfe53c40db0da34671251e5fd8ab12bb90db7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 30/54] fix: embedDBInit destroyed the variable data if its
 file could not be opened

---
 lib/Distribution/embedDB.c | 7 +++++++
 src/embedDB/embedDB.c      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index de283ce..904646a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1306,6 +1306,13 @@ int8_t embedDBInitVarData(embedDBState *state) {
         if (openResult) {
             return embedDBInitVarDataFromFile(state);
         }
+        // Creating the file would destroy the variable data of the records that were recovered
+        if (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't open variable data file!\n");
+#endif
+            return -1;
+        }
     }
 
     int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_W_PLUS_B);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 0a3c983..7afe046 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -830,6 +830,13 @@ int8_t embedDBInitVarData(embedDBState *state) {
         if (openResult) {
             return embedDBInitVarDataFromFile(state);
         }
+        // Creating the file would destroy the variable data of the records that were recovered
+        if (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't open variable data file!\n");
+#endif
+            return -1;
+        }
     }
 
     int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_W_PLUS_B);
-- 
2.43.0


From c3e7be77bf9d4f90576b2294b767cf184e4a8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 31/54] fix: failed writes of record-level consistency pages
 led to the last good page being erased

---
 lib/Distribution/embedDB.c | 7 +++++--
 src/embedDB/embedDB.c      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 904646a..e3b4291 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2837,14 +2837,17 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
 
     /* Write temporary page to storage */
     invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess || !state->fileInterface->flush(state->dataFile)) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
 
+    /* Only move on from a page that was written, as moving to the next block erases the last page that was */
+    state->nextRLCPhysicalPageLocation++;
+
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7afe046..123610d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2360,14 +2360,17 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
 
     /* Write temporary page to storage */
     invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess || !state->fileInterface->flush(state->dataFile)) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
 #endif
         return -1;
     }
 
+    /* Only move on from a page that was written, as moving to the next block erases the last page that was */
+    state->nextRLCPhysicalPageLocation++;
+
     return 0;
 }
 
-- 
2.43.0


From efcf6f90eba24c910a210b9638cb0796e756d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 32/54] fix: an erased variable data page that reads as zeros
 was taken for the first page

---
 lib/Distribution/embedDB.c | 8 ++++++--
 src/embedDB/embedDB.c      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e3b4291..8ece53c 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2957,8 +2957,12 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         memcpy(&lastPageId, (int8_t *)buf - sizeof(id_t), sizeof(id_t));
         // The page is not there anymore if an earlier erase failed after it erased the page
         if (lastPageId == state->nextVarPageId + state->eraseSizeInPages - 1 - state->numVarPages) {
-            memcpy(&state->minVarRecordId, buf, state->keySize);
-            state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+            uint64_t maxErasedKey = 0;
+            memcpy(&maxErasedKey, buf, state->keySize);
+            // An erased page that reads as zeros looks like page 0, but must not bring erased records back
+            if (lastPageId != 0 || maxErasedKey >= state->minVarRecordId) {
+                state->minVarRecordId = maxErasedKey + 1;  // Add one because the result from the last line is a record that is erased
+            }
         }
 
         invalidateBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 123610d..e822b94 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2480,8 +2480,12 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         memcpy(&lastPageId, (int8_t *)buf - sizeof(id_t), sizeof(id_t));
         // The page is not there anymore if an earlier erase failed after it erased the page
         if (lastPageId == state->nextVarPageId + state->eraseSizeInPages - 1 - state->numVarPages) {
-            memcpy(&state->minVarRecordId, buf, state->keySize);
-            state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+            uint64_t maxErasedKey = 0;
+            memcpy(&maxErasedKey, buf, state->keySize);
+            // An erased page that reads as zeros looks like page 0, but must not bring erased records back
+            if (lastPageId != 0 || maxErasedKey >= state->minVarRecordId) {
+                state->minVarRecordId = maxErasedKey + 1;  // Add one because the result from the last line is a record that is erased
+            }
         }
 
         invalidateBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
-- 
2.43.0


From 1fb1d9e67f05c06855dcae9e4d6680605e61d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 33/54] fix: keep the update of minVarRecordId for page 0 when
 no larger key has been erased

---
 lib/Distribution/embedDB.c | 7 +++----
 src/embedDB/embedDB.c      | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8ece53c..48421c0 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2957,11 +2957,10 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         memcpy(&lastPageId, (int8_t *)buf - sizeof(id_t), sizeof(id_t));
         // The page is not there anymore if an earlier erase failed after it erased the page
         if (lastPageId == state->nextVarPageId + state->eraseSizeInPages - 1 - state->numVarPages) {
-            uint64_t maxErasedKey = 0;
-            memcpy(&maxErasedKey, buf, state->keySize);
             // An erased page that reads as zeros looks like page 0, but must not bring erased records back
-            if (lastPageId != 0 || maxErasedKey >= state->minVarRecordId) {
-                state->minVarRecordId = maxErasedKey + 1;  // Add one because the result from the last line is a record that is erased
+            if (lastPageId != 0 || state->compareKey(buf, &state->minVarRecordId) >= 0) {
+                memcpy(&state->minVarRecordId, buf, state->keySize);
+                state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
             }
         }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e822b94..64c548e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2480,11 +2480,10 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
         memcpy(&lastPageId, (int8_t *)buf - sizeof(id_t), sizeof(id_t));
         // The page is not there anymore if an earlier erase failed after it erased the page
         if (lastPageId == state->nextVarPageId + state->eraseSizeInPages - 1 - state->numVarPages) {
-            uint64_t maxErasedKey = 0;
-            memcpy(&maxErasedKey, buf, state->keySize);
             // An erased page that reads as zeros looks like page 0, but must not bring erased records back
-            if (lastPageId != 0 || maxErasedKey >= state->minVarRecordId) {
-                state->minVarRecordId = maxErasedKey + 1;  // Add one because the result from the last line is a record that is erased
+            if (lastPageId != 0 || state->compareKey(buf, &state->minVarRecordId) >= 0) {
+                memcpy(&state->minVarRecordId, buf, state->keySize);
+                state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
             }
         }
 
-- 
2.43.0


From 594d0417d912f3cb9130efbafa504cd44bb5dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 34/54] fix: the SD-card and dataflash drivers used memory they
 did not get

---
 .../dataflashFileInterface.c                        |  4 ++++
 lib/SD-File-Interface/SDFileInterface.c             | 13 +++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/Dataflash-File-Interface/dataflashFileInterface.c b/lib/Dataflash-File-Interface/dataflashFileInterface.c
index 3e8e913..445a601 100644
--- a/lib/Dataflash-File-Interface/dataflashFileInterface.c
+++ b/lib/Dataflash-File-Interface/dataflashFileInterface.c
@@ -45,6 +45,8 @@ typedef struct {
 
 void *setupDataflashFile(uint32_t startPage, uint32_t numPages) {
     DF_FILE_INFO *fileInfo = malloc(sizeof(DF_FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     fileInfo->startPage = startPage;
     fileInfo->numPages = numPages;
     return fileInfo;
@@ -102,6 +104,8 @@ int8_t DF_FLUSH(void *file) {
 
 embedDBFileInterface *getDataflashInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = DF_CLOSE;
     fileInterface->read = DF_READ;
     fileInterface->write = DF_WRITE;
diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 58da460..1f67fad 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -42,8 +42,14 @@ typedef struct {
 
 void *setupSDFile(char *filename) {
     SD_FILE_INFO *fileInfo = malloc(sizeof(SD_FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->sdFile = NULL;
     return fileInfo;
@@ -51,9 +57,10 @@ void *setupSDFile(char *filename) {
 
 void tearDownSDFile(void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
+    if (fileInfo == NULL)
+        return;
     free(fileInfo->filename);
-    if (fileInfo != NULL)
-        sd_fclose(fileInfo->sdFile);
+    sd_fclose(fileInfo->sdFile);
     free(file);
 }
 
@@ -128,6 +135,8 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getSDInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
-- 
2.43.0


From 7fca021142bca1b6ac1dbcb7762e367d38ad16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 35/54] fix: the SD-card driver reported failed writes, seeks
 and closes as success

---
 lib/SD-File-Interface/SDFileInterface.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 1f67fad..f0dc523 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -66,7 +66,8 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET);
+    if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) != 0)
+        return 0;
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
@@ -77,7 +78,7 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
     if (fileSize < pageNum * pageSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
-            return -1;
+            return 0;
         }
         size_t currentSize = fileSize;
         uint32_t max = UINT32_MAX;
@@ -85,18 +86,15 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         while (currentSize < requiredSize) {
             writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
             if (writeSuccess == 0)
-                return -1;
+                return 0;
             currentSize += 4;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
     if (seekSuccess == -1) {
-        return -1;
-    }
-    int8_t writeSuccess = sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
-    if (seekSuccess == -1)
         return 0;
-    return 1;
+    }
+    return sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
 }
 
 int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
@@ -105,9 +103,9 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 
 int8_t FILE_CLOSE(void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fclose(fileInfo->sdFile);
+    int closed = sd_fclose(fileInfo->sdFile);
     fileInfo->sdFile = NULL;
-    return 1;
+    return closed == 0;
 }
 
 int8_t FILE_FLUSH(void *file) {
-- 
2.43.0


From 5bbeab24ceb770478f74daf597d38333c64bf374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 36/54] fix: the SD-card driver wrapped page offsets around at
 4 GB

---
 lib/SD-File-Interface/SDFileInterface.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index f0dc523..66b1d47 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -66,16 +66,24 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) != 0)
+    uint64_t offset = (uint64_t)pageNum * pageSize;
+    /* A file on the card is smaller than 4 GB */
+    if (offset + pageSize > UINT32_MAX)
+        return 0;
+    if (sd_fseek(fileInfo->sdFile, (uint32_t)offset, SEEK_SET) != 0)
         return 0;
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
+    uint64_t offset = (uint64_t)pageNum * pageSize;
+    /* A file on the card is smaller than 4 GB */
+    if (offset + pageSize > UINT32_MAX)
+        return 0;
     size_t fileSize = sd_length(fileInfo->sdFile);
-    size_t requiredSize = pageNum * pageSize;
-    if (fileSize < pageNum * pageSize) {
+    size_t requiredSize = (size_t)offset;
+    if (fileSize < requiredSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
             return 0;
@@ -90,7 +98,7 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
             currentSize += 4;
         }
     }
-    int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
+    int8_t seekSuccess = sd_fseek(fileInfo->sdFile, requiredSize, SEEK_SET);
     if (seekSuccess == -1) {
         return 0;
     }
-- 
2.43.0


From 84b0e345695ca7f3c4906e343a40aa90fce5cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 37/54] fix: the SD-card wrapper did not report failed flushes,
 closes and truncations

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 2f72f1e..9bfb46d 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -62,17 +62,17 @@ void init_sdcard(void *sd) {
 }
 
 int sd_fclose(SD_FILE *stream) {
+    bool closed = true;
     if (stream) {
-        stream->f.close();
+        closed = stream->f.close();
     }
 
     delete stream;
-    return 0;
+    return closed ? 0 : -1;
 }
 
 int sd_fflush(SD_FILE *stream) {
-    stream->f.flush();
-    return 0;
+    return stream->f.sync() ? 0 : -1;
 }
 
 SD_FILE *sd_fopen(const char *filename, const char *mode) {
@@ -85,7 +85,10 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
         }
         if (f.isOpen() == false)
             return NULL;
-        f.truncate(0);
+        if (!f.truncate(0)) {
+            f.close();
+            return NULL;
+        }
     } else if (mode[0] == 'r') {
         if (mode[1] == '+') {
             f = sdcard->open(filename, O_RDWR);
@@ -104,7 +107,7 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
 
 size_t sd_fread(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
     /* read is the size of bytes * num of size-bytes */
-    int16_t num_bytes = stream->f.read((char *)ptr, size * nmemb);
+    int num_bytes = stream->f.read((char *)ptr, size * nmemb);
 
     if (num_bytes < 0)
         return 0;
-- 
2.43.0


From c03d23ddb4adbea24f435bd52f985b5a9e3a43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 38/54] fix: after a card error the SD-card wrapper went on at
 the wrong cluster

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 9bfb46d..9418998 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -105,12 +105,25 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
     return file;
 }
 
+/* After an error SdFat may be on another cluster than the one its position is in: go back to the start
+   of the file, from where the next seek finds the cluster again */
+static void reset_position(SD_FILE *stream, File32 &before) {
+    if (!stream->f.curPosition()) {
+        stream->f = before;
+    } else {
+        stream->f.rewind();
+    }
+}
+
 size_t sd_fread(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
     /* read is the size of bytes * num of size-bytes */
+    File32 before = stream->f;
     int num_bytes = stream->f.read((char *)ptr, size * nmemb);
 
-    if (num_bytes < 0)
+    if (num_bytes < 0) {
+        reset_position(stream, before);
         return 0;
+    }
     return num_bytes / size;
 }
 
@@ -126,10 +139,13 @@ int sd_fseek(SD_FILE *stream, unsigned long int offset, int whence) {
 
 size_t sd_fwrite(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
     size_t total_count = size * nmemb;
+    File32 before = stream->f;
     size_t bytes_written = stream->f.write(ptr, total_count);
 
-    if (total_count != bytes_written)
+    if (total_count != bytes_written) {
+        reset_position(stream, before);
         return 0;
+    }
     return total_count;
 }
 
-- 
2.43.0


From 3964e6a448c614fa0ea4d07334afebb481d62081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 39/54] fix: on an SD card overwritten pages became durable
 before the growth of the file

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 9418998..384e8da 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -53,6 +53,7 @@ struct _SD_File {
     File32 f;   /**< The Arduino SD File object we to use. */
     int8_t eof; /**< A position telling us where the end of the
                                          file currently is. */
+    bool grown; /**< The file has grown since it was last synced. */
 };
 
 SdFat32 *sdcard;
@@ -72,7 +73,10 @@ int sd_fclose(SD_FILE *stream) {
 }
 
 int sd_fflush(SD_FILE *stream) {
-    return stream->f.sync() ? 0 : -1;
+    if (!stream->f.sync())
+        return -1;
+    stream->grown = false;
+    return 0;
 }
 
 SD_FILE *sd_fopen(const char *filename, const char *mode) {
@@ -139,6 +143,13 @@ int sd_fseek(SD_FILE *stream, unsigned long int offset, int whence) {
 
 size_t sd_fwrite(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
     size_t total_count = size * nmemb;
+
+    /* The card knows the new size of a file only once the file is synced. Do that before the file is
+       overwritten, or a loss of power can take pages that are older than the ones written last. */
+    uint32_t file_size = stream->f.fileSize();
+    if (stream->grown && stream->f.curPosition() < file_size && sd_fflush(stream) != 0)
+        return 0;
+
     File32 before = stream->f;
     size_t bytes_written = stream->f.write(ptr, total_count);
 
@@ -146,6 +157,8 @@ size_t sd_fwrite(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
         reset_position(stream, before);
         return 0;
     }
+    if (stream->f.fileSize() > file_size)
+        stream->grown = true;
     return total_count;
 }
 
-- 
2.43.0


From df764baf8bb7c9dde8cedee7375131b67442ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 40/54] fix: a dataflash file that was created anew kept its
 old pages

---
 .../dataflashFileInterface.c                       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/Dataflash-File-Interface/dataflashFileInterface.c b/lib/Dataflash-File-Interface/dataflashFileInterface.c
index 445a601..8ba4804 100644
--- a/lib/Dataflash-File-Interface/dataflashFileInterface.c
+++ b/lib/Dataflash-File-Interface/dataflashFileInterface.c
@@ -95,6 +95,20 @@ int8_t DF_CLOSE(void *file) {
 }
 
 int8_t DF_OPEN(void *file, uint8_t mode) {
+    if (mode == EMBEDDB_FILE_MODE_W_PLUS_B) {
+        /* The file is created anew: blank the header of the pages that were written before */
+        DF_FILE_INFO *fileInfo = (DF_FILE_INFO *)file;
+        uint8_t blank[16], header[16];
+        memset(blank, 0xff, sizeof(blank));
+        for (uint32_t i = 0; i < fileInfo->numPages; i++) {
+            if (dfread(fileInfo->startPage + i, header, sizeof(header)) != sizeof(header))
+                return 0;
+            if (memcmp(header, blank, sizeof(blank)) == 0)
+                continue;
+            if (dfwrite(fileInfo->startPage + i, blank, sizeof(blank)) != sizeof(blank))
+                return 0;
+        }
+    }
     return 1;
 }
 
-- 
2.43.0


From 14f0bb58f78a54d1ea72af97cdc91ad8aa48b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 41/54] fix: comparators order values that are more than half
 the range apart

---
 lib/Distribution/embedDB.c           | 13 +++++++------
 lib/EmbedDB-Utility/embedDBUtility.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 48421c0..16218a3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4763,19 +4763,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 69f5bae..0d1c889 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -254,19 +254,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
-- 
2.43.0


From 998646a8b883df49544a949c0c00499bbb5af340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 42/54] fix: embedDBInit left the I/O counters uninitialised
 when variable data is used

---
 lib/Distribution/embedDB.c | 5 ++++-
 src/embedDB/embedDB.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 16218a3..c22ba7d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -809,12 +809,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 64c548e..116c7f0 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -333,12 +333,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
     }
 
+    if (varDataInitResult != 0) {
+        return varDataInitResult;
+    }
+
     embedDBResetStats(state);
     return 0;
 }
-- 
2.43.0


From b0b8a8ea184e5b938c30a47d3129ab3f7bd7e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 43/54] fix: writes of temporary pages were missing in the
 number of writes

---
 lib/Distribution/embedDB.c | 2 ++
 src/embedDB/embedDB.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c22ba7d..090f502 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2841,6 +2841,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     /* Write temporary page to storage */
     invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
+    if (writeSuccess)
+        state->numWrites++;
     if (!writeSuccess || !state->fileInterface->flush(state->dataFile)) {
 #ifdef PRINT_ERRORS
         printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 116c7f0..05af074 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2364,6 +2364,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     /* Write temporary page to storage */
     invalidateBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
+    if (writeSuccess)
+        state->numWrites++;
     if (!writeSuccess || !state->fileInterface->flush(state->dataFile)) {
 #ifdef PRINT_ERRORS
         printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
-- 
2.43.0


From 07027303e5b47e8056854962d1500a4efc3cdd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 44/54] fix: the variable data location overflowed after 4 GB
 in one session

---
 lib/Distribution/embedDB.c | 10 ++++------
 src/embedDB/embedDB.c      | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 090f502..e77be29 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1945,7 +1945,7 @@ static int8_t writeVariableData(embedDBState *state, void *key, void *variableDa
 
         // Update the header to include the maximum key value stored on this page
         memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
+        state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
     }
 
     int amtWritten = 0;
@@ -1967,7 +1967,7 @@ static int8_t writeVariableData(embedDBState *state, void *key, void *variableDa
 
             // Update the header to include the maximum key value stored on this page and account for page number
             memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
+            state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
         }
     }
 
@@ -2383,10 +2383,8 @@ static int8_t writeVarBuffer(embedDBState *state) {
 
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
+    // the next variable data goes at the start of the next page
+    state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 05af074..bac280f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1468,7 +1468,7 @@ static int8_t writeVariableData(embedDBState *state, void *key, void *variableDa
 
         // Update the header to include the maximum key value stored on this page
         memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
+        state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
     }
 
     int amtWritten = 0;
@@ -1490,7 +1490,7 @@ static int8_t writeVariableData(embedDBState *state, void *key, void *variableDa
 
             // Update the header to include the maximum key value stored on this page and account for page number
             memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
+            state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
         }
     }
 
@@ -1906,10 +1906,8 @@ static int8_t writeVarBuffer(embedDBState *state) {
 
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
+    // the next variable data goes at the start of the next page
+    state->currentVarLoc = state->nextVarPageId % state->numVarPages * state->pageSize + state->variableDataHeaderSize;
     return 0;
 }
 
-- 
2.43.0


From 60c54749884cabff5b876a18f956889e0cc5db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 45/54] fix: a failed embedDBInit kept the spline and left
 files open

---
 lib/Distribution/embedDB.c | 38 ++++++++++++++++++++++++++++++++------
 src/embedDB/embedDB.c      | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e77be29..6f6c96e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -543,6 +543,7 @@ void readToWriteBufVar(embedDBState *state);
 static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation);
 static int8_t writeVarBuffer(embedDBState *state);
 static int8_t writeVariableData(embedDBState *state, void *key, void *variableData, uint32_t length);
+static void releaseSpline(embedDBState *state);
 
 /**
  * @brief	Forgets a page kept in a read buffer when its storage is about to change
@@ -775,6 +776,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        releaseSpline(state);
         return dataInitResult;
     }
 
@@ -785,7 +787,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
-            return -1;
+            indexInitResult = -1;
         } else {
             indexInitResult = embedDBInitIndex(state);
         }
@@ -795,6 +797,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
+        state->fileInterface->close(state->dataFile);
+        releaseSpline(state);
         return indexInitResult;
     }
 
@@ -805,7 +809,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
-            return -1;
+            varDataInitResult = -1;
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
@@ -815,6 +819,10 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (varDataInitResult != 0) {
+        state->fileInterface->close(state->dataFile);
+        if (EMBEDDB_USING_INDEX(state->parameters))
+            state->fileInterface->close(state->indexFile);
+        releaseSpline(state);
         return varDataInitResult;
     }
 
@@ -846,11 +854,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t recoveryResult = 0;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                recoveryResult = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                recoveryResult = embedDBInitDataFromFile(state);
             }
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->dataFile);
+            return recoveryResult;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
@@ -1203,7 +1215,10 @@ int8_t embedDBInitIndex(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
-            return embedDBInitIndexFromFile(state);
+            int8_t recoveryResult = embedDBInitIndexFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->indexFile);
+            return recoveryResult;
         }
     }
 
@@ -1307,7 +1322,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t recoveryResult = embedDBInitVarDataFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->varFile);
+            return recoveryResult;
         }
         // Creating the file would destroy the variable data of the records that were recovered
         if (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0) {
@@ -3137,6 +3155,14 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
+    releaseSpline(state);
+}
+
+/**
+ * @brief	Frees the spline, if one is used.
+ * @param	state	embedDB state structure
+ */
+static void releaseSpline(embedDBState *state) {
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         splineClose(state->spl);
         free(state->spl);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bac280f..dcc8872 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -67,6 +67,7 @@ void readToWriteBufVar(embedDBState *state);
 static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t dataLocation);
 static int8_t writeVarBuffer(embedDBState *state);
 static int8_t writeVariableData(embedDBState *state, void *key, void *variableData, uint32_t length);
+static void releaseSpline(embedDBState *state);
 
 /**
  * @brief	Forgets a page kept in a read buffer when its storage is about to change
@@ -299,6 +300,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        releaseSpline(state);
         return dataInitResult;
     }
 
@@ -309,7 +311,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
-            return -1;
+            indexInitResult = -1;
         } else {
             indexInitResult = embedDBInitIndex(state);
         }
@@ -319,6 +321,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
+        state->fileInterface->close(state->dataFile);
+        releaseSpline(state);
         return indexInitResult;
     }
 
@@ -329,7 +333,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
-            return -1;
+            varDataInitResult = -1;
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
@@ -339,6 +343,10 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (varDataInitResult != 0) {
+        state->fileInterface->close(state->dataFile);
+        if (EMBEDDB_USING_INDEX(state->parameters))
+            state->fileInterface->close(state->indexFile);
+        releaseSpline(state);
         return varDataInitResult;
     }
 
@@ -370,11 +378,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t recoveryResult = 0;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                recoveryResult = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                recoveryResult = embedDBInitDataFromFile(state);
             }
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->dataFile);
+            return recoveryResult;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
@@ -727,7 +739,10 @@ int8_t embedDBInitIndex(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
-            return embedDBInitIndexFromFile(state);
+            int8_t recoveryResult = embedDBInitIndexFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->indexFile);
+            return recoveryResult;
         }
     }
 
@@ -831,7 +846,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t recoveryResult = embedDBInitVarDataFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->varFile);
+            return recoveryResult;
         }
         // Creating the file would destroy the variable data of the records that were recovered
         if (state->nextDataPageId > 0 || EMBEDDB_GET_COUNT(state->buffer) > 0) {
@@ -2660,6 +2678,14 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
+    releaseSpline(state);
+}
+
+/**
+ * @brief	Frees the spline, if one is used.
+ * @param	state	embedDB state structure
+ */
+static void releaseSpline(embedDBState *state) {
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         splineClose(state->spl);
         free(state->spl);
-- 
2.43.0


From e80967529cca66f6f1d6ee40ac13134dd7a75659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 46/54] fix: a selection can name a column beyond the 127th

---
 lib/Distribution/embedDB.c            | 6 +++---
 lib/Distribution/embedDB.h            | 2 +-
 src/query-interface/advancedQueries.c | 6 +++---
 src/query-interface/advancedQueries.h | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6f6c96e..4a82f31 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3700,7 +3700,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
 }
 
 struct selectionInfo {
-    int8_t colNum;
+    uint8_t colNum;
     int8_t operation;
     void *compVal;
 };
@@ -3743,7 +3743,7 @@ int8_t nextSelection(embedDBOperator *op) {
         return 0;  // init failed
     }
 
-    int8_t colNum = state->colNum;
+    uint8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
     int8_t operation = state->operation;
     int8_t colSize = schema->columnSizes[colNum];
@@ -3781,7 +3781,7 @@ void closeSelection(embedDBOperator *op) {
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator *createSelectionOperator(embedDBOperator *input, int8_t colNum, int8_t operation, void *compVal) {
+embedDBOperator *createSelectionOperator(embedDBOperator *input, uint8_t colNum, int8_t operation, void *compVal) {
     struct selectionInfo *state = malloc(sizeof(struct selectionInfo));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index bc0ed9a..901905e 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -914,7 +914,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator *createSelectionOperator(embedDBOperator *input, int8_t colNum, int8_t operation, void *compVal);
+embedDBOperator *createSelectionOperator(embedDBOperator *input, uint8_t colNum, int8_t operation, void *compVal);
 
 /**
  * @brief	Creates an operator that will find groups and preform aggregate functions over each group.
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index aba8827..68b209c 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -370,7 +370,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
 }
 
 struct selectionInfo {
-    int8_t colNum;
+    uint8_t colNum;
     int8_t operation;
     void* compVal;
 };
@@ -413,7 +413,7 @@ int8_t nextSelection(embedDBOperator* op) {
         return 0;  // init failed
     }
 
-    int8_t colNum = state->colNum;
+    uint8_t colNum = state->colNum;
     uint16_t colPos = getColOffsetFromSchema(schema, colNum);
     int8_t operation = state->operation;
     int8_t colSize = schema->columnSizes[colNum];
@@ -451,7 +451,7 @@ void closeSelection(embedDBOperator* op) {
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator* createSelectionOperator(embedDBOperator* input, int8_t colNum, int8_t operation, void* compVal) {
+embedDBOperator* createSelectionOperator(embedDBOperator* input, uint8_t colNum, int8_t operation, void* compVal) {
     struct selectionInfo* state = malloc(sizeof(struct selectionInfo));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
diff --git a/src/query-interface/advancedQueries.h b/src/query-interface/advancedQueries.h
index e811bc2..c84f728 100644
--- a/src/query-interface/advancedQueries.h
+++ b/src/query-interface/advancedQueries.h
@@ -160,7 +160,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
  * @param	operation	A constant representing which comparison operation to perform. (e.g. SELECT_GT, SELECT_EQ, etc)
  * @param	compVal		A pointer to the value to compare with. Make sure the size of this is the same number of bytes as is described in the schema
  */
-embedDBOperator* createSelectionOperator(embedDBOperator* input, int8_t colNum, int8_t operation, void* compVal);
+embedDBOperator* createSelectionOperator(embedDBOperator* input, uint8_t colNum, int8_t operation, void* compVal);
 
 /**
  * @brief	Creates an operator that will find groups and preform aggregate functions over each group.
-- 
2.43.0


From df878bc3ebe9d8fc113d3ddda69e2bc1b8a44eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 47/54] fix: a join or an aggregation with more columns than a
 schema counts is refused

---
 lib/Distribution/embedDB.c            | 12 ++++++++++++
 src/query-interface/advancedQueries.c | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 4a82f31..6bf1685 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3840,6 +3840,12 @@ void initAggregate(embedDBOperator *op) {
     if (op->input->schema == NULL) {
         return;
     }
+    if (state->functionsLength > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: There are more aggregate functions than a schema has columns\n");
+#endif
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -4033,6 +4039,12 @@ void initKeyJoin(embedDBOperator *op) {
 #endif
         return;
     }
+    if (schema1->numCols + schema2->numCols > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The joined records have more columns than a schema can hold\n");
+#endif
+        return;
+    }
 
     // Setup schema
     if (op->schema == NULL) {
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 68b209c..701cf1c 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -510,6 +510,12 @@ void initAggregate(embedDBOperator* op) {
     if (op->input->schema == NULL) {
         return;
     }
+    if (state->functionsLength > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: There are more aggregate functions than a schema has columns\n");
+#endif
+        return;
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -703,6 +709,12 @@ void initKeyJoin(embedDBOperator* op) {
 #endif
         return;
     }
+    if (schema1->numCols + schema2->numCols > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The joined records have more columns than a schema can hold\n");
+#endif
+        return;
+    }
 
     // Setup schema
     if (op->schema == NULL) {
-- 
2.43.0


From 531a09abdbdb8fefaeba5aab2a57b04e48e0aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 48/54] fix: a schema with a column of negative size is refused

---
 lib/Distribution/embedDB.c   | 2 +-
 src/query-interface/schema.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6bf1685..6241185 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3229,7 +3229,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 17b0415..702a991 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -64,7 +64,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
-- 
2.43.0


From d9f045cca6794b14bfa9d936d1c930292b206022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 49/54] fix: data of 128 bytes and more wrapped around in the
 record size

---
 lib/Distribution/embedDB.h | 6 +++---
 src/embedDB/embedDB.h      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 901905e..0e44b4c 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -406,9 +406,9 @@ typedef struct {
     count_t pageSize;                                                     /* Size of physical page on device */
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
-    int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
-    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
+    int16_t dataSize;                                                     /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
+    int32_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int32_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index b7e977f..7c04c8f 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -225,9 +225,9 @@ typedef struct {
     count_t pageSize;                                                     /* Size of physical page on device */
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
-    int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int16_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
-    int16_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
+    int16_t dataSize;                                                     /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
+    int32_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    int32_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
-- 
2.43.0


From 785b1ef3eb8dd113df8ae60f305f7ad0808df906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 50/54] fix: a page without room for one record is refused

---
 lib/Distribution/embedDB.c | 8 ++++++++
 src/embedDB/embedDB.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6241185..5b4c58f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -731,6 +731,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize = max(state->headerSize, EMBEDDB_MIN_OFFSET) + state->keySize * 2 + state->dataSize * 2;
 
+    /* A page must have room for one record */
+    if (state->pageSize < state->headerSize + state->recordSize || (EMBEDDB_USING_INDEX(state->parameters) && state->pageSize < 16 + state->bitmapSize)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small for the page header and one record.\n");
+#endif
+        return -1;
+    }
+
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
     state->bufferedIndexPageId = -1;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index dcc8872..e7d5560 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -255,6 +255,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
         state->headerSize = max(state->headerSize, EMBEDDB_MIN_OFFSET) + state->keySize * 2 + state->dataSize * 2;
 
+    /* A page must have room for one record */
+    if (state->pageSize < state->headerSize + state->recordSize || (EMBEDDB_USING_INDEX(state->parameters) && state->pageSize < 16 + state->bitmapSize)) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size is too small for the page header and one record.\n");
+#endif
+        return -1;
+    }
+
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
     state->bufferedIndexPageId = -1;
-- 
2.43.0


From 4b4808e9cbbf6b804f07dbe8e24f75a97b974733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 51/54] fix: sizes of zero, one page buffer and a missing
 variable data file are refused

---
 lib/Distribution/embedDB.c | 30 +++++++++++++++++++++++++++++-
 src/embedDB/embedDB.c      | 30 +++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5b4c58f..807ef0b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -682,6 +682,20 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0 || state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size and the erase size must be at least one.\n");
+#endif
+        return -1;
+    }
+
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -724,8 +738,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     /* The bitmap is kept in every data page, with or without an index file */
-    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) {
+        if (state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The bitmap size must be at least one.\n");
+#endif
+            return -1;
+        }
         state->headerSize += state->bitmapSize;
+    }
 
     /* The minimum and maximum values are stored from a fixed offset in the header */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
@@ -1318,6 +1339,13 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 }
 
 int8_t embedDBInitVarData(embedDBState *state) {
+    if (state->varFile == NULL || state->numVarPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No variable data file provided!\n");
+#endif
+        return -1;
+    }
+
     // Initialize variable data outpt buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index e7d5560..7866ae7 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -206,6 +206,20 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0 || state->eraseSizeInPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size and the erase size must be at least one.\n");
+#endif
+        return -1;
+    }
+
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -248,8 +262,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     /* The bitmap is kept in every data page, with or without an index file */
-    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) {
+        if (state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The bitmap size must be at least one.\n");
+#endif
+            return -1;
+        }
         state->headerSize += state->bitmapSize;
+    }
 
     /* The minimum and maximum values are stored from a fixed offset in the header */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
@@ -842,6 +863,13 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 }
 
 int8_t embedDBInitVarData(embedDBState *state) {
+    if (state->varFile == NULL || state->numVarPages < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No variable data file provided!\n");
+#endif
+        return -1;
+    }
+
     // Initialize variable data outpt buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
-- 
2.43.0


From bbe9b84d32f90366e7fe1c53146f264aedfac5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 52/54] fix: a variable data file of one erase block is refused

---
 lib/Distribution/embedDB.c | 10 +++++++++-
 src/embedDB/embedDB.c      | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 807ef0b..d3f27cd 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1339,7 +1339,15 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 }
 
 int8_t embedDBInitVarData(embedDBState *state) {
-    if (state->varFile == NULL || state->numVarPages < 1) {
+    /* With one erase block, an erase leaves no variable data to recover from */
+    if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+        return -1;
+    }
+
+    if (state->varFile == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: No variable data file provided!\n");
 #endif
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7866ae7..a12920f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -863,7 +863,15 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
 }
 
 int8_t embedDBInitVarData(embedDBState *state) {
-    if (state->varFile == NULL || state->numVarPages < 1) {
+    /* With one erase block, an erase leaves no variable data to recover from */
+    if (state->numVarPages < state->eraseSizeInPages * 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Minimum variable data space is two erase blocks\n");
+#endif
+        return -1;
+    }
+
+    if (state->varFile == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: No variable data file provided!\n");
 #endif
-- 
2.43.0


From 68d3591fecf7a737c5ed20e12c81f382576ef898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:48 +0000
Subject: [PATCH 53/54] fix: the bitmap membership tests keep the high bits

---
 lib/Distribution/embedDB.c           | 12 ++++++------
 lib/EmbedDB-Utility/embedDBUtility.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d3f27cd..b1a3ca9 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4692,8 +4692,8 @@ int8_t inBitmapInt8(void *data, void *bm) {
     uint8_t tmpbm = 0;
     updateBitmapInt8(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /* A 16-bit bitmap on a 32-bit int value */
@@ -4722,8 +4722,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4787,8 +4787,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 0d1c889..eca9d8c 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -98,8 +98,8 @@ int8_t inBitmapInt8(void *data, void *bm) {
     uint8_t tmpbm = 0;
     updateBitmapInt8(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /* A 16-bit bitmap on a 32-bit int value */
@@ -128,8 +128,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -193,8 +193,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
-- 
2.43.0


From 2ca06f1696e28507d07450abd1a9da5ee117061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:57 +0000
Subject: [PATCH 54/54] fix: looking up variable data in a table without it
 reports an error

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b1a3ca9..da438b2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2312,7 +2312,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a12920f..417371e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1835,7 +1835,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
-- 
2.43.0

