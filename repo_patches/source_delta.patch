From 48028497cfd85ab98fcf67e750498b5a87f22c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 01/20] fix: clear the previous compile error when new code is
 compiled

projectm_eval_get_error() is documented to be cleared every time new code is
compiled, but a stale message was returned after a successful compilation and
the message string leaked when a second compilation failed.
---
 projectm-eval/CompileContext.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 54fbd56..8fe5e36 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -88,6 +88,10 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
 {
     yyscan_t scanner;
 
+    /* Clear the error of any previous compilation. */
+    free(cctx->error.error);
+    memset(&cctx->error, 0, sizeof(cctx->error));
+
     prjm_eval_lex_init(&scanner);
     YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
 
-- 
2.43.0


From f44c722356578e170a1e8463059940d11a1a98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 02/20] fix: forget the built-in global buffer after destroying
 it

projectm_eval_memory_global_destroy() is documented to free and reset the
built-in gmegabuf, but left a dangling pointer behind: contexts created later
used freed memory and a second destroy call freed it twice.
---
 projectm-eval/MemoryBuffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 7e21609..082ac7a 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -11,6 +11,7 @@ static projectm_eval_mem_buffer static_global_memory;
 void prjm_eval_memory_destroy_global()
 {
     prjm_eval_memory_destroy_buffer(static_global_memory);
+    static_global_memory = NULL;
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
-- 
2.43.0


From 77b3ef647b874ebc8f7925a6ffc84a255c3bc690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 03/20] fix: create the built-in global buffer only once

Two threads creating their first context at the same time could both see no
built-in gmegabuf and create one each, leaking the first and leaving the two
contexts with different global memory. Check again with the lock held.
---
 projectm-eval/MemoryBuffer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 082ac7a..2239552 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -20,7 +20,10 @@ projectm_eval_mem_buffer prjm_eval_memory_global()
     {
         projectm_eval_memory_host_lock_mutex();
 
-        static_global_memory = prjm_eval_memory_create_buffer();
+        if (!static_global_memory)
+        {
+            static_global_memory = prjm_eval_memory_create_buffer();
+        }
 
         projectm_eval_memory_host_unlock_mutex();
     }
-- 
2.43.0


From f4b1e48e28da0f6deaea7a6adf326ae67418fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 04/20] fix: keep out-of-range megabuf indices and counts out
 of range

Index -1 was truncated to cell 0, so writing to it changed memory. Values not
fitting into an int were converted with undefined results, and trimming such
ranges overflowed: memset(-2, 1, -1e10) filled the whole buffer, while
memset(0, 1, 1e10) did nothing instead of being trimmed. Convert indices and
counts in one place, saturating, and calculate with 64 bits.
---
 projectm-eval/MemoryBuffer.c  | 53 ++++++++++++++++++++++++-----------
 projectm-eval/MemoryBuffer.h  | 13 ++++++++-
 projectm-eval/TreeFunctions.c |  2 +-
 3 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 2239552..918b12d 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -5,6 +5,10 @@
 
 #define PRJM_EVAL_MEM_BLOCKS 128
 #define PRJM_EVAL_MEM_ITEMSPERBLOCK 65536
+#define PRJM_EVAL_MEM_ITEMS (PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+
+/* Largest absolute value returned by prjm_eval_memory_index(), 2^53. */
+#define PRJM_EVAL_MEM_MAX_INDEX 9007199254740992
 
 static projectm_eval_mem_buffer static_global_memory;
 
@@ -77,7 +81,23 @@ void prjm_eval_memory_free_block(projectm_eval_mem_buffer buffer, int block)
     }
 }
 
-PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int index)
+int64_t prjm_eval_memory_index(PRJM_EVAL_F value)
+{
+    double index = value < 0 ? value - 0.0001 : value + 0.0001;
+
+    if (index >= PRJM_EVAL_MEM_MAX_INDEX)
+    {
+        return PRJM_EVAL_MEM_MAX_INDEX;
+    }
+    if (!(index > -PRJM_EVAL_MEM_MAX_INDEX))
+    {
+        return -PRJM_EVAL_MEM_MAX_INDEX;
+    }
+
+    return (int64_t) index;
+}
+
+PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int64_t index)
 {
     int block;
     if (!buffer)
@@ -85,8 +105,9 @@ PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int inde
         return NULL;
     }
 
-    if (index >= 0 && (block = index / PRJM_EVAL_MEM_ITEMSPERBLOCK) < PRJM_EVAL_MEM_BLOCKS)
+    if (index >= 0 && index < PRJM_EVAL_MEM_ITEMS)
     {
+        block = (int) (index / PRJM_EVAL_MEM_ITEMSPERBLOCK);
         PRJM_EVAL_F* cur_block = buffer[block];
 
         if (!cur_block)
@@ -116,9 +137,9 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int offset_src = (int) (*src + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_index(*dest);
+    int64_t offset_src = prjm_eval_memory_index(*src);
+    int64_t count = prjm_eval_memory_index(*len);
 
     // Trim to front if an offset is less than zero.
     if (offset_src < 0)
@@ -139,13 +160,13 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 
     while (count > 0)
     {
-        int copy_length = count;
+        int64_t copy_length = count;
 
-        int max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-        int max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
 
-        if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
-            offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+        if (offset_dest >= PRJM_EVAL_MEM_ITEMS ||
+            offset_src >= PRJM_EVAL_MEM_ITEMS)
         {
             break;
         }
@@ -185,8 +206,8 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_index(*dest);
+    int64_t count = prjm_eval_memory_index(*len);
 
     // Trim to front
     if (offset_dest < 0)
@@ -195,14 +216,14 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
         offset_dest = 0;
     }
 
-    if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+    if (offset_dest >= PRJM_EVAL_MEM_ITEMS)
     {
         return dest;
     }
 
-    if (offset_dest + count > PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+    if (offset_dest + count > PRJM_EVAL_MEM_ITEMS)
     {
-        count = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK - offset_dest;
+        count = PRJM_EVAL_MEM_ITEMS - offset_dest;
     }
 
     if (count < 1)
@@ -219,7 +240,7 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
             break;
         }
 
-        int block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         if (block_count > count)
         {
             block_count = count;
diff --git a/projectm-eval/MemoryBuffer.h b/projectm-eval/MemoryBuffer.h
index 1417766..bad7e49 100644
--- a/projectm-eval/MemoryBuffer.h
+++ b/projectm-eval/MemoryBuffer.h
@@ -7,6 +7,8 @@
 
 #include "CompilerTypes.h"
 
+#include <stdint.h>
+
 /**
  * @brief Destroys the global memory buffer and its contents.
  * Only to be used after all context objects are destroyed. Will cause segfaults otherwise.
@@ -47,13 +49,22 @@ void prjm_eval_memory_free(projectm_eval_mem_buffer buffer);
  */
 void prjm_eval_memory_free_block(projectm_eval_mem_buffer buffer, int block);
 
+/**
+ * @brief Converts an expression value to a memory index or item count.
+ * Decimals are truncated, allowing for small rounding errors. Values too large to be a valid index will result in an
+ * equally out-of-range index. NaN results in a negative index.
+ * @param value The value to convert.
+ * @return The memory index. Not necessarily in the range of a memory buffer.
+ */
+int64_t prjm_eval_memory_index(PRJM_EVAL_F value);
+
 /**
  * @brief Allocates the appropriate memory block and returns a pointer to the data address for the given index.
  * @param buffer A pointer to the buffer to use.
  * @param index The memory index (offset) to allocate and return a pointer to.
  * @return A pointer to the newly allocated value, or NULL if the allocation failed.
  */
-PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int index);
+PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int64_t index);
 
 /**
  * @brief Copies a continuous block of values from one location to another.
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index ecf986d..8bdeee4 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -358,7 +358,7 @@ prjm_eval_function_decl(mem)
     PRJM_EVAL_F* index_ptr = &ctx->value;
     invoke_arg(0, &index_ptr);
 
-    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) (*index_ptr + 0.0001));
+    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, prjm_eval_memory_index(*index_ptr));
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
-- 
2.43.0


From df4b31409e9d343d5e1c8a27f9a738d75327cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 05/20] fix: copy overlapping memory across block boundaries
 correctly

memcpy() is documented to support overlapping areas. It copied block by block
from the front, overwriting source values before they were read if the
destination is above the source and the area crosses a block boundary.
---
 projectm-eval/MemoryBuffer.c | 51 ++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 918b12d..e57b9fa 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -155,21 +155,27 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
         offset_dest = 0;
     }
 
+    // Trim to end.
+    if (count > PRJM_EVAL_MEM_ITEMS - offset_dest)
+    {
+        count = PRJM_EVAL_MEM_ITEMS - offset_dest;
+    }
+    if (count > PRJM_EVAL_MEM_ITEMS - offset_src)
+    {
+        count = PRJM_EVAL_MEM_ITEMS - offset_src;
+    }
+
     PRJM_EVAL_F* src_pointer;
     PRJM_EVAL_F* dst_pointer;
 
-    while (count > 0)
+    // If the values are moved up, start with the last ones. Otherwise, source values in an overlapping area located in
+    // another block would be overwritten before being copied.
+    while (offset_dest > offset_src && count > 0)
     {
         int64_t copy_length = count;
 
-        int64_t max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-        int64_t max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-
-        if (offset_dest >= PRJM_EVAL_MEM_ITEMS ||
-            offset_src >= PRJM_EVAL_MEM_ITEMS)
-        {
-            break;
-        }
+        int64_t max_dst_len = ((offset_dest + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+        int64_t max_src_len = ((offset_src + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
 
         if (copy_length > max_dst_len)
         {
@@ -180,9 +186,32 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
             copy_length = max_src_len;
         }
 
-        if (copy_length < 1)
+        count -= copy_length;
+
+        src_pointer = prjm_eval_memory_allocate(buffer, offset_src + count);
+        dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest + count);
+        if (!src_pointer || !dst_pointer)
         {
-            break;
+            return dest;
+        }
+
+        memmove(dst_pointer, src_pointer, sizeof(PRJM_EVAL_F) * copy_length);
+    }
+
+    while (count > 0)
+    {
+        int64_t copy_length = count;
+
+        int64_t max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+
+        if (copy_length > max_dst_len)
+        {
+            copy_length = max_dst_len;
+        }
+        if (copy_length > max_src_len)
+        {
+            copy_length = max_src_len;
         }
 
         src_pointer = prjm_eval_memory_allocate(buffer, offset_src);
-- 
2.43.0


From 8d1e0086cc55686d8dbbbaa0babaf33fe05d114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 06/20] fix: make freembuf() a no-op as documented

freembuf() freed the whole megabuf while references into it could still be in
use by the same expression, e.g. in "megabuf(0) = freembuf(0)", and set its
argument to 0 if it was a variable. It is documented to neither free memory nor
reset its contents.
---
 projectm-eval/TreeFunctions.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 8bdeee4..637065c 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -373,9 +373,12 @@ prjm_eval_function_decl(freembuf)
     assert_valid_ctx();
     assert(ctx->memory_buffer);
 
-    invoke_arg(0, ret_val);
+    ctx->value = .0;
+    PRJM_EVAL_F* index_ptr = &ctx->value;
+    invoke_arg(0, &index_ptr);
 
-    prjm_eval_memory_free(ctx->memory_buffer);
+    /* Currently a no-op, same as in Milkdrop. Freeing blocks here would invalidate references to memory locations which
+     * are still being used by the calling expression. */
 
     assign_ret_val(.0);
 }
-- 
2.43.0


From 5b5c4af50aaf457718d8952c439eb8832b82efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 07/20] fix: do not overwrite variables with the result of a
 while() iteration

If an iteration's result was a variable reference, the result of the next
iteration was stored in this variable if it was a plain value. E.g.
"while(if(above(n += 1, 2), 0, x))" has set x to 0.
---
 projectm-eval/TreeFunctions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 637065c..4f0c5c4 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -289,6 +289,8 @@ prjm_eval_function_decl(execute_while)
     int loop_count_int = MAX_LOOP_COUNT;
     do
     {
+        ctx->value = .0;
+        value_ptr = &ctx->value;
         invoke_arg(0, &value_ptr);
     } while (fabs(*value_ptr) > close_factor_low && --loop_count_int);
 
-- 
2.43.0


From 6e0a085e8796a35e042595a25d02915ef7c74ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 08/20] fix: do not overwrite the first exec3() argument with
 the second

If the first argument was a variable or memory reference and the second a plain
value, the value was stored in the variable, e.g. exec3(x, 5, 1) has set x to 5.
---
 projectm-eval/TreeFunctions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 4f0c5c4..dfcc5ee 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -332,7 +332,11 @@ prjm_eval_function_decl(exec3)
     PRJM_EVAL_F* value_ptr = &ctx->value;
 
     invoke_arg(0, &value_ptr);
+
+    ctx->value = .0;
+    value_ptr = &ctx->value;
     invoke_arg(1, &value_ptr);
+
     invoke_arg(2, ret_val);
 }
 
-- 
2.43.0


From 8216aa19b968d7b97672abf270e42f36a986c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 09/20] fix: do not crash when calculating the remainder of -1

The remainder of the smallest int value (also the result of converting any too
large value on x86) divided by -1 raises SIGFPE, killing the application when
compiling or running e.g. "-2147483648 % -1".
---
 projectm-eval/TreeFunctions.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index dfcc5ee..c95fb67 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -609,7 +609,8 @@ prjm_eval_function_decl(mod)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    /* The remainder of -1 is always 0, but can overflow if calculated. */
+    if (divisor == 0 || divisor == -1)
     {
         assign_ret_val(0.0);
         return;
@@ -810,7 +811,8 @@ prjm_eval_function_decl(modop)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    /* The remainder of -1 is always 0, but can overflow if calculated. */
+    if (divisor == 0 || divisor == -1)
     {
         assign_ret_val(0.0);
         return;
-- 
2.43.0


From 7b2bb0e21b279134d2b4e6e8a5aecf49ee3af8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 10/20] fix: limit loop() counts too large for an int

Counts above 2^31 were converted to a negative number on x86, skipping the loop
instead of aborting it after 2^20 iterations.
---
 projectm-eval/TreeFunctions.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index c95fb67..fd7cc7a 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -263,12 +263,8 @@ prjm_eval_function_decl(execute_loop)
     PRJM_EVAL_F* value_ptr = &ctx->value;
     invoke_arg(0, &value_ptr);
 
-    int loop_count_int = (int) (*value_ptr);
-    /* Limit execution count */
-    if (loop_count_int > MAX_LOOP_COUNT)
-    {
-        loop_count_int = MAX_LOOP_COUNT;
-    }
+    /* Limit execution count before converting the value, as it may not fit into an int */
+    int loop_count_int = *value_ptr > MAX_LOOP_COUNT ? MAX_LOOP_COUNT : (int) (*value_ptr);
 
     for (int i = 0; i < loop_count_int; i++)
     {
-- 
2.43.0


From d25717885dfa8341bec1565d4bbde9c1de853fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 11/20] fix: evaluate the second operand of && and || only if
 required

The boolean operators used the band() and bor() functions, which always evaluate
both arguments and treat values below 0.00001 as zero. They are documented to
only evaluate the second operand if the first one doesn't decide the result,
which is what the _and() and _or() functions do.
---
 projectm-eval/Compiler.c | 4 ++--
 projectm-eval/Compiler.y | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index b7ef064..e9d954b 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2008,11 +2008,11 @@ yyreduce:
     break;
 
   case 33: /* expression: expression BOOLOR expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_or", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 34: /* expression: expression BOOLAND expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_and", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 35: /* expression: expression '=' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index b035e0b..fc6e8a2 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -145,8 +145,8 @@ expression:
 | expression[left] '>' expression[right]       { PRJM_EVAL_FUNC2($$, "_above", $left, $right) }
 
 /* Boolean operators */
-| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "_or", $left, $right) }
+| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "_and", $left, $right) }
 
 /* Assignment operator */
 | expression[left] '=' expression[right]           { PRJM_EVAL_FUNC2($$, "_set", $left, $right) }
-- 
2.43.0


From dffe68e8ffac3304d88fae13c87cac1aa8663a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 12/20] fix: do not print the contents of block comments

Characters inside block comments matched no rule in this scanner state, so the
default rule echoed them to the standard output of the application.
---
 projectm-eval/Scanner.c | 133 ++++++++++++++++++++--------------------
 projectm-eval/Scanner.h |   5 +-
 projectm-eval/Scanner.l |   1 +
 3 files changed, 71 insertions(+), 68 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index d54c3e8..95b943e 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -347,7 +347,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -364,8 +363,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
@@ -755,8 +754,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -766,14 +765,14 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[80] =
     {   0,
-        0,    0,    0,    0,    0,    0,   52,   50,   49,   49,
-       39,   50,   35,   37,   41,   42,   33,   31,   47,   32,
-       50,   34,   13,   46,   48,   29,   40,   30,   45,   14,
-       14,   43,   44,   36,   38,   51,    3,   51,    6,    5,
-       26,    0,   10,    0,    0,   17,   28,   19,   21,   15,
-       16,   13,    1,    4,   20,   13,   13,    0,   24,   23,
-       25,   14,   14,   22,   18,   27,    2,    0,    0,    9,
-        7,   13,    0,   13,   14,    8,   11,   12,    0
+        0,    0,    0,    0,    0,    0,   53,   51,   50,   50,
+       40,   51,   36,   38,   42,   43,   34,   32,   48,   33,
+       51,   35,   14,   47,   49,   30,   41,   31,   46,   15,
+       15,   44,   45,   37,   39,    4,    3,    4,    7,    6,
+       27,    0,   11,    0,    0,   18,   29,   20,   22,   16,
+       17,   14,    1,    5,   21,   14,   14,    0,   25,   24,
+       26,   15,   15,   23,   19,   28,    2,    0,    0,   10,
+        8,   14,    0,   14,   15,    9,   12,   13,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -889,11 +888,11 @@ static const flex_int16_t yy_chk[169] =
 
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -1396,19 +1395,23 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-{ BEGIN(IL_COMMENT); }
+{ }
 	YY_BREAK
 case 5:
-/* rule 5 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); }
+{ BEGIN(IL_COMMENT); }
 	YY_BREAK
 case 6:
+/* rule 6 can match eol */
+YY_RULE_SETUP
+{ BEGIN(INITIAL); }
+	YY_BREAK
+case 7:
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* Constants */
-case 7:
+case 8:
 YY_RULE_SETUP
 {
                         char* p = yytext + 2;
@@ -1416,34 +1419,34 @@ YY_RULE_SETUP
                         return NUM;
                         }
 	YY_BREAK
-case 8:
+case 9:
 YY_RULE_SETUP
 { yylval->NUM = *(char*)(yytext + 2); return NUM; }
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
 { yylval->NUM = 3.141592653589793f; return NUM; }
 	YY_BREAK
-case 10:
+case 11:
 YY_RULE_SETUP
 { yylval->NUM = 2.71828183f; return NUM; }
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
 { yylval->NUM = 1.61803399f; return NUM; }
 	YY_BREAK
-case 12:
+case 13:
 YY_RULE_SETUP
 { return GMEM; }
 	YY_BREAK
-case 13:
+case 14:
 YY_RULE_SETUP
 {
                         yylval->NUM = atof(yytext);
                         return NUM;
                     }
 	YY_BREAK
-case 14:
+case 15:
 YY_RULE_SETUP
 {
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
@@ -1456,156 +1459,156 @@ YY_RULE_SETUP
                     }
 	YY_BREAK
 /* Operators */
-case 15:
+case 16:
 YY_RULE_SETUP
 { return ADDOP; }
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
 { return SUBOP; }
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
 { return MODOP; }
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
 { return OROP; }
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
 { return ANDOP; }
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
 { return DIVOP; }
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
 { return MULOP; }
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
 { return POWOP; }
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
 { return EQUAL; }
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
 { return BELEQ; }
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
 { return ABOEQ; }
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
 { return NOTEQ; }
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
 { return BOOLOR; }
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
 { return BOOLAND; }
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
 { return '<'; }
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
 { return '>'; }
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
 { return '+'; }
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
 { return '-'; }
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
 { return '*'; }
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
 { return '/'; }
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
 { return '!'; }
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
 { return '='; }
 	YY_BREAK
 /* Syntactic elements */
-case 41:
+case 42:
 YY_RULE_SETUP
 { return '('; }
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
 { return ')'; }
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
 { return '['; }
 	YY_BREAK
-case 44:
+case 45:
 YY_RULE_SETUP
 { return ']'; }
 	YY_BREAK
-case 45:
+case 46:
 YY_RULE_SETUP
 { return '?'; }
 	YY_BREAK
-case 46:
+case 47:
 YY_RULE_SETUP
 { return ':'; }
 	YY_BREAK
-case 47:
+case 48:
 YY_RULE_SETUP
 { return ','; }
 	YY_BREAK
 /* Expression terminator */
-case 48:
+case 49:
 YY_RULE_SETUP
 { return ';'; }
 	YY_BREAK
 /* Ignored whitespace */
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* All other tokens are invalid */
-case 50:
+case 51:
 YY_RULE_SETUP
 { return PRJM_EVAL_UNDEF; }
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
diff --git a/projectm-eval/Scanner.h b/projectm-eval/Scanner.h
index 0ef2aac..f31467a 100644
--- a/projectm-eval/Scanner.h
+++ b/projectm-eval/Scanner.h
@@ -351,7 +351,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -368,8 +367,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 883c55b..bcf381f 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -49,6 +49,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/*"                { BEGIN(ML_COMMENT); }
 <ML_COMMENT>"*/"    { BEGIN(INITIAL); }
 <ML_COMMENT>\n      { }
+<ML_COMMENT>.       { }
 
 "//"                { BEGIN(IL_COMMENT); }
 <IL_COMMENT>\n      { BEGIN(INITIAL); }
-- 
2.43.0


From 6aff1d5b80c5d53f60b35b27cd66fba7aaecf399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 13/20] fix: do not truncate $PI, $E and $PHI to single
 precision

---
 projectm-eval/Scanner.c | 6 +++---
 projectm-eval/Scanner.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 95b943e..5709457 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1425,15 +1425,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-{ yylval->NUM = 3.141592653589793f; return NUM; }
+{ yylval->NUM = 3.141592653589793; return NUM; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ yylval->NUM = 2.71828183f; return NUM; }
+{ yylval->NUM = 2.71828183; return NUM; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-{ yylval->NUM = 1.61803399f; return NUM; }
+{ yylval->NUM = 1.61803399; return NUM; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index bcf381f..254ba96 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -62,9 +62,9 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
                         return NUM;
                         }
 "$'"."'"            { yylval->NUM = *(char*)(yytext + 2); return NUM; }
-"$"(?i:pi)          { yylval->NUM = 3.141592653589793f; return NUM; }
-"$"[eE]             { yylval->NUM = 2.71828183f; return NUM; }
-"$"(?i:phi)         { yylval->NUM = 1.61803399f; return NUM; }
+"$"(?i:pi)          { yylval->NUM = 3.141592653589793; return NUM; }
+"$"[eE]             { yylval->NUM = 2.71828183; return NUM; }
+"$"(?i:phi)         { yylval->NUM = 1.61803399; return NUM; }
 
 (?i:gmem)           { return GMEM; }
 
-- 
2.43.0


From 59a711a9a9aaf788b408a678d809e7878a68aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 14/20] fix: count columns from zero in all lines

The column of compile errors was counted from zero in the first line, but from
one in all others, as the line break was counted as part of the next line.
---
 projectm-eval/Scanner.c | 26 +++++++++++++++-----------
 projectm-eval/Scanner.l |  7 ++++---
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 5709457..473bc8f 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -754,8 +754,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 52
-#define YY_END_OF_BUFFER 53
+#define YY_NUM_RULES 53
+#define YY_END_OF_BUFFER 54
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -765,9 +765,9 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[80] =
     {   0,
-        0,    0,    0,    0,    0,    0,   53,   51,   50,   50,
-       40,   51,   36,   38,   42,   43,   34,   32,   48,   33,
-       51,   35,   14,   47,   49,   30,   41,   31,   46,   15,
+        0,    0,    0,    0,    0,    0,   54,   52,   51,   50,
+       40,   52,   36,   38,   42,   43,   34,   32,   48,   33,
+       52,   35,   14,   47,   49,   30,   41,   31,   46,   15,
        15,   44,   45,   37,   39,    4,    3,    4,    7,    6,
        27,    0,   11,    0,    0,   18,   29,   20,   22,   16,
        17,   14,    1,    5,   21,   14,   14,    0,   25,   24,
@@ -888,11 +888,11 @@ static const flex_int16_t yy_chk[169] =
 
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[53] =
+static const flex_int32_t yy_rule_can_match_eol[54] =
     {   0,
 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -1391,7 +1391,7 @@ YY_RULE_SETUP
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-{ }
+{ yycolumn = 0; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
@@ -1404,7 +1404,7 @@ YY_RULE_SETUP
 case 6:
 /* rule 6 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); }
+{ BEGIN(INITIAL); yycolumn = 0; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
@@ -1601,14 +1601,18 @@ YY_RULE_SETUP
 case 50:
 /* rule 50 can match eol */
 YY_RULE_SETUP
+{ yycolumn = 0; }
+	YY_BREAK
+case 51:
+YY_RULE_SETUP
 { }
 	YY_BREAK
 /* All other tokens are invalid */
-case 51:
+case 52:
 YY_RULE_SETUP
 { return PRJM_EVAL_UNDEF; }
 	YY_BREAK
-case 52:
+case 53:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 254ba96..9859eb0 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -48,11 +48,11 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
     /* Comments */
 "/*"                { BEGIN(ML_COMMENT); }
 <ML_COMMENT>"*/"    { BEGIN(INITIAL); }
-<ML_COMMENT>\n      { }
+<ML_COMMENT>\n      { yycolumn = 0; }
 <ML_COMMENT>.       { }
 
 "//"                { BEGIN(IL_COMMENT); }
-<IL_COMMENT>\n      { BEGIN(INITIAL); }
+<IL_COMMENT>\n      { BEGIN(INITIAL); yycolumn = 0; }
 <IL_COMMENT>.       { }
 
     /* Constants */
@@ -124,7 +124,8 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 ";"			        { return ';'; }
 
     /* Ignored whitespace */
-[ \r\n\t\v\f]	    { }
+\n                  { yycolumn = 0; }
+[ \r\t\v\f]	    { }
 
     /* All other tokens are invalid */
 .                   { return PRJM_EVAL_UNDEF; }
-- 
2.43.0


From aa46093343f0317417879c418c3f7da4b1935978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 15/20] fix: parse & and | as bitwise operators

---
 projectm-eval/Compiler.c      |  4 ++--
 projectm-eval/Compiler.y      |  4 ++--
 projectm-eval/Scanner.c       |  4 ++--
 projectm-eval/Scanner.l       |  4 ++--
 projectm-eval/TreeFunctions.c | 32 ++++++++++++++++++++++++++++++++
 projectm-eval/TreeFunctions.h |  2 ++
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index e9d954b..9341290 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2052,11 +2052,11 @@ yyreduce:
     break;
 
   case 44: /* expression: expression '|' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*or*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 45: /* expression: expression '&' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*and*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 46: /* expression: '-' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index fc6e8a2..a461833 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -164,8 +164,8 @@ expression:
 | expression[left] '/' expression[right] { PRJM_EVAL_FUNC2($$, "_div", $left, $right) }
 | expression[left] '%' expression[right] { PRJM_EVAL_FUNC2($$, "_mod", $left, $right) }
 | expression[left] '^' expression[right] { PRJM_EVAL_FUNC2($$, "pow", $left, $right) }
-| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "/*or*/", $left, $right) }
+| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "/*and*/", $left, $right) }
 
 /* Unary operators */
 | '-' expression[value] %prec NEG        { PRJM_EVAL_FUNC1($$, "_neg", $value) }
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 473bc8f..e1ed237 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1549,11 +1549,11 @@ YY_RULE_SETUP
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return '%'; }
+{ return '&'; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return '^'; }
+{ return '|'; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 9859eb0..ab559fe 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -106,8 +106,8 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/"                 { return '/'; }
 "%"                 { return '%'; }
 "^"	                { return '^'; }
-"&"                 { return '%'; }
-"|"	                { return '^'; }
+"&"                 { return '&'; }
+"|"	                { return '|'; }
 "!"	                { return '!'; }
 "="	                { return '='; }
 
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index fd7cc7a..03e175d 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -21,6 +21,8 @@ static prjm_eval_function_def_t intrinsic_function_table[] = {
     { "/*const*/", prjm_eval_func_const,         0, true,  false },
     { "/*var*/",   prjm_eval_func_var,           0, false, false },
     { "/*list*/",  prjm_eval_func_execute_list,  1, true,  false },
+    { "/*and*/",   prjm_eval_func_bitwise_and,   2, true,  false },
+    { "/*or*/",    prjm_eval_func_bitwise_or,    2, true,  false },
 
     { "if",        prjm_eval_func_if,            3, true,  false },
     { "_if",       prjm_eval_func_if,            3, true,  false },
@@ -700,6 +702,36 @@ prjm_eval_function_decl(bor_func)
     assign_ret_val(fabs(*val1_ptr) > close_factor || fabs(*val2_ptr) > close_factor ? 1.0 : 0.0);
 }
 
+prjm_eval_function_decl(bitwise_and)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int) (*val1_ptr) & (int) (*val2_ptr)));
+}
+
+prjm_eval_function_decl(bitwise_or)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int) (*val1_ptr) | (int) (*val2_ptr)));
+}
+
 prjm_eval_function_decl(neg)
 {
     assert_valid_ctx();
diff --git a/projectm-eval/TreeFunctions.h b/projectm-eval/TreeFunctions.h
index db0dea2..0412451 100644
--- a/projectm-eval/TreeFunctions.h
+++ b/projectm-eval/TreeFunctions.h
@@ -60,6 +60,8 @@ prjm_eval_function_decl(band_op);
 prjm_eval_function_decl(bor_op);
 prjm_eval_function_decl(band_func);
 prjm_eval_function_decl(bor_func);
+prjm_eval_function_decl(bitwise_and);
+prjm_eval_function_decl(bitwise_or);
 prjm_eval_function_decl(neg);
 
 /* Compound assignment operators */
-- 
2.43.0


From 3e433bc457af9adfc05ded34b6482fee7709ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 16/20] fix: free discarded values if compiling fails

---
 projectm-eval/Compiler.c          | 44 ++++++++++++++++++++++++++-----
 projectm-eval/Compiler.y          |  5 ++++
 projectm-eval/CompilerFunctions.c |  2 ++
 projectm-eval/CompilerFunctions.h |  2 +-
 4 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index 9341290..9317c29 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -518,11 +518,11 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    77,    77,    78,    88,    92,    93,    97,   101,   102,
-     103,   107,   108,   114,   115,   118,   121,   122,   123,   130,
-     131,   132,   133,   134,   135,   136,   137,   140,   141,   142,
-     143,   144,   145,   148,   149,   152,   155,   158,   161,   162,
-     163,   164,   165,   166,   167,   168,   171,   172,   173,   176
+       0,    82,    82,    83,    93,    97,    98,   102,   106,   107,
+     108,   112,   113,   119,   120,   123,   126,   127,   128,   135,
+     136,   137,   138,   139,   140,   141,   142,   145,   146,   147,
+     148,   149,   150,   153,   154,   157,   160,   163,   166,   167,
+     168,   169,   170,   171,   172,   173,   176,   177,   178,   181
 };
 #endif
 
@@ -1569,7 +1569,39 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_VAR: /* VAR  */
+            { free(((*yyvaluep).VAR)); }
+        break;
+
+    case YYSYMBOL_FUNC: /* FUNC  */
+            { free(((*yyvaluep).FUNC)); }
+        break;
+
+    case YYSYMBOL_function: /* function  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).function)); }
+        break;
+
+    case YYSYMBOL_46_function_arglist: /* function-arglist  */
+            { prjm_eval_compiler_destroy_arglist(((*yyvaluep).yykind_46)); }
+        break;
+
+    case YYSYMBOL_parentheses: /* parentheses  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).parentheses)); }
+        break;
+
+    case YYSYMBOL_48_instruction_list: /* instruction-list  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).yykind_48)); }
+        break;
+
+    case YYSYMBOL_expression: /* expression  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).expression)); }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index a461833..2d55c2e 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -47,6 +47,11 @@ typedef void* yyscan_t;
 %nterm <prjm_eval_compiler_node_t*> function program instruction-list expression parentheses
 %nterm <prjm_eval_compiler_arg_list_t*> function-arglist
 
+/* Semantic values discarded after an error. "program" doesn't own its value and must not be listed here. */
+%destructor { free($$); } VAR FUNC
+%destructor { prjm_eval_compiler_destroy_node($$); } function instruction-list expression parentheses
+%destructor { prjm_eval_compiler_destroy_arglist($$); } function-arglist
+
 /* Operator precedence, lowest first, highest last. */
 %precedence ','
 %right '='
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 41be59e..dfb4607 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -126,6 +126,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     if (!func)
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Unknown function \"%s\".", name)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
@@ -133,6 +134,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Invalid argument count for function \"%s\": Expected %d, but %d given.",
                               name, func->arg_count, arglist->count)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 43c1215..a151cbb 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -6,7 +6,7 @@
 #define PRJM_EVAL_FUNC(ret, name, args) {\
         char* errval = NULL; \
         ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
-        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }\
+        if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); free(name); YYERROR; }\
     }
 
 #define PRJM_EVAL_FUNC1(ret, name, arg1) {\
-- 
2.43.0


From 25166d4d6c0cf602420b7082c8fe2368fbbaeb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 17/20] fix: return NULL if a context could not be created

---
 projectm-eval/CompileContext.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 8fe5e36..71c10c3 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -13,6 +13,10 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
                                                                PRJM_EVAL_F (* global_variables)[100])
 {
     prjm_eval_compiler_context_t* cctx = calloc(1, sizeof(prjm_eval_compiler_context_t));
+    if (!cctx)
+    {
+        return NULL;
+    }
 
     prjm_eval_intrinsic_function_list intrinsics;
     int intrinsics_count = 0;
@@ -21,18 +25,26 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
     assert(intrinsics);
     assert(intrinsics_count);
 
-    prjm_eval_function_list_item_t* last_func = NULL;
     for (int index = intrinsics_count - 1; index >= 0; --index)
     {
         assert(&intrinsics[index]);
         prjm_eval_function_list_item_t* func = malloc(sizeof(prjm_eval_function_list_item_t));
-        func->function = malloc(sizeof(prjm_eval_function_def_t));
-        memcpy(func->function, &intrinsics[index], sizeof(prjm_eval_function_def_t));
-        func->function->name = strdup(intrinsics[index].name);
-        func->next = last_func;
-        last_func = func;
+        prjm_eval_function_def_t* function = malloc(sizeof(prjm_eval_function_def_t));
+        char* name = strdup(intrinsics[index].name);
+        if (!func || !function || !name)
+        {
+            free(func);
+            free(function);
+            free(name);
+            prjm_eval_destroy_compile_context(cctx);
+            return NULL;
+        }
+        memcpy(function, &intrinsics[index], sizeof(prjm_eval_function_def_t));
+        function->name = name;
+        func->function = function;
+        func->next = cctx->functions.first;
+        cctx->functions.first = func;
     }
-    cctx->functions.first = last_func;
 
     cctx->memory = prjm_eval_memory_create_buffer();
 
@@ -45,6 +57,12 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
         cctx->global_memory = prjm_eval_memory_global();
     }
 
+    if (!cctx->memory || !cctx->global_memory)
+    {
+        prjm_eval_destroy_compile_context(cctx);
+        return NULL;
+    }
+
     cctx->global_variables = global_variables;
 
     return cctx;
-- 
2.43.0


From 3b23e4585223d54b88bf618a6875bc10a94a4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 18/20] fix: rand() reads beyond its state when used in several
 threads

Another thread could advance the generator's index between the check and the use of it.
---
 projectm-eval/TreeFunctions.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 03e175d..5b9c77c 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -167,26 +167,28 @@ static unsigned int prjm_eval_genrand_int32(void)
     static unsigned int mt[N]; /* the array for the state vector  */
     static int mti; /* mti==N+1 means mt[N] is not initialized */
 
+    /* Contexts in other threads use the same generator. Only use a copy, so they can't move the index out of bounds. */
+    int index = mti;
 
-    if (!mti)
+    if (!index)
     {
         unsigned int s = 0x4141f00d;
         mt[0] = s & 0xffffffffUL;
-        for (mti = 1; mti < N; mti++)
+        for (index = 1; index < N; index++)
         {
-            mt[mti] =
-                (1812433253UL * (mt[mti - 1] ^ (mt[mti - 1] >> 30)) + mti);
+            mt[index] =
+                (1812433253UL * (mt[index - 1] ^ (mt[index - 1] >> 30)) + index);
 
             /* See Knuth TAOCP Vol2. 3rd Ed. P.106 for multiplier. */
             /* In the previous versions, MSBs of the seed affect   */
             /* only MSBs of the array mt[].                        */
             /* 2002/01/09 modified by Makoto Matsumoto             */
-            mt[mti] &= 0xffffffffUL;
+            mt[index] &= 0xffffffffUL;
             /* for >32 bit machines */
         }
     }
 
-    if (mti >= N)
+    if (index >= N)
     { /* generate N words at one time */
         int kk;
 
@@ -203,10 +205,11 @@ static unsigned int prjm_eval_genrand_int32(void)
         y = (mt[N - 1] & UPPER_MASK) | (mt[0] & LOWER_MASK);
         mt[N - 1] = mt[M - 1] ^ (y >> 1) ^ mag01[y & 0x1UL];
 
-        mti = 0;
+        index = 0;
     }
 
-    y = mt[mti++];
+    y = mt[index++];
+    mti = index;
 
     /* Tempering */
     y ^= (y >> 11);
-- 
2.43.0


From d010e237d42f0b39e82ea7a5eeb82ddae76f5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 19/20] fix: parse numbers with a decimal point in any locale

---
 projectm-eval/Scanner.c | 39 +++++++++++++++++++++++++++++++++++++-
 projectm-eval/Scanner.l | 42 ++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 79 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index e1ed237..8bd29e0 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -903,6 +903,43 @@ static const flex_int32_t yy_rule_can_match_eol[54] =
 #define YY_RESTORE_YY_MORE_OFFSET
 #define YY_NO_INPUT 1
 
+#include <stdlib.h>
+#include <string.h>
+
+/* atof() expects the decimal separator of the locale set by the application, while the syntax always uses a point. */
+static double prjm_eval_scanner_atof(const char* text)
+{
+    const char* point = strchr(text, '.');
+    if (!point)
+    {
+        return atof(text);
+    }
+
+    /* "0", separator, "5". Unlike localeconv(), this is thread-safe. */
+    char half[32];
+    snprintf(half, sizeof(half), "%.1f", .5);
+    const char* separator = half + 1;
+    size_t separator_length = strlen(separator) - 1;
+    if (separator_length == 1 && *separator == '.')
+    {
+        return atof(text);
+    }
+
+    size_t prefix_length = point - text;
+    char* localized = malloc(strlen(text) + separator_length);
+    if (!localized)
+    {
+        return .0;
+    }
+
+    memcpy(localized, text, prefix_length);
+    memcpy(localized + prefix_length, separator, separator_length);
+    strcpy(localized + prefix_length + separator_length, point + 1);
+
+    double value = atof(localized);
+    free(localized);
+    return value;
+}
     /* States */
 
 
@@ -1442,7 +1479,7 @@ YY_RULE_SETUP
 case 14:
 YY_RULE_SETUP
 {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = prjm_eval_scanner_atof(yytext);
                         return NUM;
                     }
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index ab559fe..b753165 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -30,6 +30,46 @@
 struct prjm_eval_scanner_state;
 }
 
+%{
+#include <stdlib.h>
+#include <string.h>
+
+/* atof() expects the decimal separator of the locale set by the application, while the syntax always uses a point. */
+static double prjm_eval_scanner_atof(const char* text)
+{
+    const char* point = strchr(text, '.');
+    if (!point)
+    {
+        return atof(text);
+    }
+
+    /* "0", separator, "5". Unlike localeconv(), this is thread-safe. */
+    char half[32];
+    snprintf(half, sizeof(half), "%.1f", .5);
+    const char* separator = half + 1;
+    size_t separator_length = strlen(separator) - 1;
+    if (separator_length == 1 && *separator == '.')
+    {
+        return atof(text);
+    }
+
+    size_t prefix_length = point - text;
+    char* localized = malloc(strlen(text) + separator_length);
+    if (!localized)
+    {
+        return .0;
+    }
+
+    memcpy(localized, text, prefix_length);
+    memcpy(localized + prefix_length, separator, separator_length);
+    strcpy(localized + prefix_length + separator_length, point + 1);
+
+    double value = atof(localized);
+    free(localized);
+    return value;
+}
+%}
+
 
     /* States */
 %x ML_COMMENT
@@ -69,7 +109,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 (?i:gmem)           { return GMEM; }
 
 {FLOAT}            {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = prjm_eval_scanner_atof(yytext);
                         return NUM;
                     }
 {NAME}              {
-- 
2.43.0


From b5b456f7699468cb4b3393d81aba52d7515f183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 20/20] fix: ignore the case of names in any locale

---
 projectm-eval/CompilerFunctions.c |  9 ++-------
 projectm-eval/TreeVariables.c     | 19 +++++++++++++++++--
 projectm-eval/TreeVariables.h     |  6 ++++++
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index dfb4607..f972277 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -7,11 +7,6 @@
 #include <string.h>
 #include <stdlib.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
@@ -57,7 +52,7 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
     prjm_eval_function_list_item_t* entry = cctx->functions.first;
     while (entry)
     {
-        if (strcasecmp(entry->function->name, name) == 0)
+        if (prjm_eval_names_equal(entry->function->name, name))
         {
             return true;
         }
@@ -73,7 +68,7 @@ prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_con
     prjm_eval_function_list_item_t* func = cctx->functions.first;
     while (func)
     {
-        if (strcasecmp(func->function->name, name) == 0)
+        if (prjm_eval_names_equal(func->function->name, name))
         {
             return func->function;
         }
diff --git a/projectm-eval/TreeVariables.c b/projectm-eval/TreeVariables.c
index ce1e511..60c1abb 100644
--- a/projectm-eval/TreeVariables.c
+++ b/projectm-eval/TreeVariables.c
@@ -5,12 +5,27 @@
 #include <string.h>
 
 #ifdef _MSC_VER
-#define strcasecmp stricmp
 #define strncasecmp _strnicmp
 #endif
 
 static PRJM_EVAL_F static_global_variables[100];
 
+static int ascii_lower(char c)
+{
+    return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c;
+}
+
+bool prjm_eval_names_equal(const char* name1, const char* name2)
+{
+    while (*name1 && ascii_lower(*name1) == ascii_lower(*name2))
+    {
+        name1++;
+        name2++;
+    }
+
+    return ascii_lower(*name1) == ascii_lower(*name2);
+}
+
 static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_context_t* cctx,
                                                        const char* name)
 {
@@ -18,7 +33,7 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
     prjm_eval_variable_entry_t* var = cctx->variables.first;
     while (var)
     {
-        if (strcasecmp(var->variable->name, name) == 0)
+        if (prjm_eval_names_equal(var->variable->name, name))
         {
             break;
         }
diff --git a/projectm-eval/TreeVariables.h b/projectm-eval/TreeVariables.h
index f2c8741..eb7dbdf 100644
--- a/projectm-eval/TreeVariables.h
+++ b/projectm-eval/TreeVariables.h
@@ -4,3 +4,9 @@
 
 PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx,
                                          const char* name);
+
+/**
+ * @brief Compares two names, ignoring the case of ASCII letters in any locale.
+ * @return true if both names are equal, false if not.
+ */
+bool prjm_eval_names_equal(const char* name1, const char* name2);
-- 
2.43.0

