From ddedd3161e0ed233b15faccc5571633a6dd0c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 01/10] fix: do not read or write a field beyond the end of a
 chunk smaller than the field

The comparison was carried out in size_t, so that a chunk size smaller than
the field size (or a negative one) wrapped around and made the field "fit".
---
 src/libiff/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..aea7f23 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,7 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    return chunkSize < (IFF_Long)fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From 38b64de4fa9cd08bfb2582dafbd2e420275f6c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 02/10] fix: consult the global chunk types when a form
 specific chain has no match

A registry with chunk types for a FORM type shadowed the global FORM, CAT,
LIST and PROP types inside such a FORM, so that nested groups were treated as
raw chunks.
---
 src/libiff/chunkregistry.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..51c75a8 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -90,12 +90,13 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
     {
         /* Search for the requested FORM chunk types */
         const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
-        IFF_ChunkType *result;
+        IFF_ChunkType *result = NULL;
 
-        if(formChunkTypes == NULL)
-            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
-        else
-            result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
+        if(formChunkTypes != NULL)
+            result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the form specific chunk type that handles the a chunk with the given chunk id */
+
+        if(result == NULL)
+            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the global chunk type that handles the a chunk with the given chunk id */
 
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
-- 
2.43.0


From 94463165e86ac9ccdb6cb5c0f5ba7c35541c2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 03/10] fix: report a write failure that only becomes visible
 when flushing or closing

---
 src/libiff/iff.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..f3ecf3e 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -92,7 +92,17 @@ IFF_Chunk *IFF_read(const char *filename, const IFF_ChunkRegistry *chunkRegistry
 
 IFF_Bool IFF_writeFd(FILE *file, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
-    return IFF_writeChunk(file, chunk, 0, selectChunkRegistry(chunkRegistry));
+    if(!IFF_writeChunk(file, chunk, 0, selectChunkRegistry(chunkRegistry)))
+        return FALSE;
+
+    /* Data that is still buffered may not have been stored yet */
+    if(fflush(file) != 0)
+    {
+        IFF_error("ERROR: cannot flush the written chunk!\n");
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
@@ -107,7 +117,13 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    if(fclose(file) != 0)
+    {
+        IFF_error("ERROR: cannot close file: %s\n", filename);
+        status = FALSE;
+    }
+
     return status;
 }
 
-- 
2.43.0


From dd9625d139ade94e2b06e472ee30f33553a911fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 04/10] fix: free the intermediate results of a form search

---
 src/libiff/group.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..53ed87a 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -262,6 +262,7 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
         forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        free(result);
     }
 
     return forms;
-- 
2.43.0


From e19d0495aea1689cc14e48ed877732a6734c7402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 05/10] fix: print the number of processed bytes instead of its
 address

---
 src/libiff/group.c | 2 +-
 src/libiff/list.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 53ed87a..4de8436 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From 1c5017606a7156b1bd21bf1f9ddbe1989b6a3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 06/10] fix: write and compare the PROPs of a LIST like its
 other sub chunks

They are read, checked, printed and freed in the scope of the contents type,
but were written in the global scope and compared without regarding their
chunk sizes and the registry.
---
 src/libiff/list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..c370863 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -133,7 +133,7 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
 
     for(i = 0; i < list->propLength; i++)
     {
-        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], 0, chunkRegistry))
+        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))
         {
             IFF_error("Error writing PROP!\n");
             return FALSE;
@@ -256,7 +256,7 @@ static IFF_Bool compareListPropChunks(const IFF_List *list1, const IFF_List *lis
 
         for(i = 0; i < list1->propLength; i++)
         {
-            if(!IFF_compareProp((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], chunkRegistry))
+            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry))
                return FALSE;
         }
 
-- 
2.43.0


From 34ce27c81f17ea77ef581aaeb55ce06c6cbe454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 07/10] fix: fail when the unknown bytes of a chunk are
 missing, and only then

Seeking beyond the end of a regular file succeeds, so that truncated chunks
were accepted, and is impossible on a pipe, so that valid chunks were refused.
The diagnostic was given on success instead of on failure.
---
 src/libiff/io.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..1854022 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -208,22 +208,21 @@ IFF_Bool IFF_writeLong(FILE *file, const IFF_Long value, const IFF_ID chunkId, c
 
 IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    if(bytesProcessed < chunkSize)
-    {
-        long bytesToSkip = chunkSize - bytesProcessed;
+    IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+    /* Read the bytes, because seeking beyond the end of a file succeeds and pipes cannot seek */
+    for(i = bytesProcessed; i < chunkSize; i++)
+    {
+        if(fgetc(file) == EOF)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot skip: %d bytes in data chunk: '", chunkSize - i);
             IFF_errorId(chunkId);
             IFF_error("'\n");
-            return TRUE;
-        }
-        else
             return FALSE;
+        }
     }
-    else
-        return TRUE;
+
+    return TRUE;
 }
 
 IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
-- 
2.43.0


From ed8479a5e025ddf740b0230f79e4c6bdc3dc4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 08/10] fix: free an input of iffjoin that turns out to be
 invalid

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..47e4ca7 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -42,6 +42,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         /* Check whether the IFF file is valid */
         if(chunk == NULL || !IFF_check(chunk, NULL))
         {
+            if(chunk != NULL)
+                IFF_free(chunk, NULL);
+
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-- 
2.43.0


From 8e3fc36fa5233ba5760e88a13cb6763ed68ea5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 09/10] fix: report a chunk for which no memory can be
 allocated

---
 src/libiff/chunk.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..2aa82da 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -48,7 +48,13 @@ static IFF_Chunk *readChunkBody(FILE *file, const IFF_ID chunkId, const IFF_Long
     IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunkId);
     IFF_Chunk *chunk = chunkType->createExtensionChunk(chunkId, chunkSize);
 
-    if(chunk != NULL)
+    if(chunk == NULL)
+    {
+        IFF_error("Cannot allocate memory for chunk: '");
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+    }
+    else
     {
         IFF_Long bytesProcessed = 0;
 
-- 
2.43.0


From 291ba57afab51dbbc12620b416563e11043aca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:29 +0000
Subject: [PATCH 10/10] fix: fail when no memory can be allocated for the
 filler bytes of a chunk

---
 src/libiff/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 1854022..7586b0e 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -231,7 +231,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
     {
         size_t bytesToSkip = chunkSize - bytesProcessed;
         IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
 
         if(!status)
         {
-- 
2.43.0

