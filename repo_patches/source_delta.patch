From 731888ace5fc914fdfa5f3ad51c356d6fa67f10f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 01/20] fix: NbAccV with a scale must complete locally before
 its scaled copy is freed

---
 src/vector_nb.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..42f9120 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -130,6 +130,11 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
       blocking = 1;
   }
 
+  /* The scaled copy of the source data is freed below, so it must not be in use anymore. */
+  if (ARMCII_Buf_acc_is_scaled(datatype, scale)) {
+      blocking = 1;
+  }
+
   for (int v = 0; v < iov_len; v++) {
     void **src_buf;
     int    overlapping, same_alloc;
-- 
2.43.0


From ea2dddd8141024ccf62dbde68fbb35ae42985d30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 02/20] fix: read the group options before the world group is
 initialized

With ARMCI_NONCOLLECTIVE_GROUPS=1 the world group had no communicator for
noncollective group creation, so creating a group from it and finalizing failed.
---
 src/init_finalize.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..76c6d0b 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -199,6 +199,16 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
+  /* Group formation options - these apply to the world group, too. */
+
+#ifdef ARMCI_GROUP
+  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#endif
+  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
+    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
+  }
+  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
+
   /* Setup groups and communicators - do this before ARMCII_Warning is called! */
 
   MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);
@@ -283,16 +293,6 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
-  /* Group formation options */
-
-#ifdef ARMCI_GROUP
-  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
-#endif
-  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
-    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-  }
-  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
-
   /* Check for IOV and Strided flags */
 
   /* Relevant bugs:
-- 
2.43.0


From d790a89e37064ef8bdc67ed1018e71552706a489 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 03/20] fix: initialize the translation caches of groups the
 caller is not a member of

ARMCI_Group_free passed the uninitialized pointers to free().
---
 src/groups.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..fb558a3 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -63,6 +63,12 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
 
       free(ranks);
     }
+
+    /* Not a member of the group: there is nothing to translate */
+    else {
+      group->abs_to_grp = NULL;
+      group->grp_to_abs = NULL;
+    }
   }
   
   /* Translation caching is disabled */
-- 
2.43.0


From 1d19879b1cf3cee46c37a584e3fbf02090b6426f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 04/20] fix: conservative vector operations look up the
 allocation of every segment

With ARMCI_IOV_CHECKS=1 or ARMCI_IOV_METHOD=CONSRV a vector whose segments lie in
different allocations was performed on the window of the first segment.
---
 src/vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 850633a..29ebcea 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,12 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    /* The segments may belong to different allocations in the conservative case */
+    if (consrv && i > 0) {
+      mreg = gmr_lookup((op == ARMCII_OP_GET) ? src[i] : dst[i], proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0


From c6ac9c761e5447d9f39914e750baf7cc224686dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 05/20] fix: check the bounds of datatype vector operations in
 bytes

The end of a segment was computed from its element count, so that accumulates
beyond the end of the slice were not rejected, and the size of the slice and
the displacements were truncated to int.
---
 src/vector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 29ebcea..b618415 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -312,7 +312,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
-    int           dst_win_size, i, type_size;
+    MPI_Aint      dst_win_size;
+    int           i, type_size;
     void        **buf_rem, **buf_loc;
     MPI_Aint      base_rem;
     int flush_local = 0; /* used only for MPI-3 */
@@ -371,8 +372,9 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
+      ARMCII_Assert_msg((target_rem - base_rem)/type_size <= INT_MAX, "Remote offset exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + (MPI_Aint)block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
     }
 
-- 
2.43.0


From c316e3ca4b9c9598c6d0c39a0fdb4ce11019d622 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 06/20] fix: check the bounds of read-modify-write with the
 size of its type

A fetch-and-op on the last bytes of a slice could access memory beyond it.
---
 src/gmr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..2aa6988 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -905,7 +905,7 @@ int gmr_get_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype
 int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 		MPI_Datatype type, MPI_Op op, int proc)
 {
-  int        grp_proc;
+  int        grp_proc, type_size;
   gmr_size_t disp;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
@@ -916,8 +916,9 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
   disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[proc].base);
 
   // Perform checks
+  MPI_Type_size(type, &type_size);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + type_size <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From 0cec7e6bab4bacd7336276094413eaff3fe326cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 07/20] fix: ARMCI_Test reports an inactive handle as complete

An operation that completes immediately leaves the handle inactive, and ARMCI_Test
on it reported it as incomplete forever.
---
 src/onesided_nb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..712266c 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -330,6 +330,8 @@ int PARMCI_Test(armci_hdl_t* handle)
 
     ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
 
+    flag = 1; /* nothing is outstanding */
+
   } else if (handle->batch_size == 1) {
 
     if (handle->single_request == MPI_REQUEST_NULL) {
-- 
2.43.0


From 0453a6015ab70e3dc5f2cea85c10ed3217d756fa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 08/20] fix: ARMCI_Fence and ARMCI_WaitProc skip allocations of
 groups without the process

A live allocation on a subgroup made fencing any process outside of it abort.
---
 src/onesided_nb.c | 4 +++-
 src/util.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 712266c..3685314 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -394,7 +394,9 @@ int PARMCI_WaitProc(int proc)
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
-    gmr_flush(cur_mreg, proc, 1); /* local only */
+    /* proc may not be a member of the allocation's group */
+    if (ARMCII_Translate_absolute_to_group(&cur_mreg->group, proc) >= 0)
+      gmr_flush(cur_mreg, proc, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
   return 0;
diff --git a/src/util.c b/src/util.c
index 2229c77..2d5b3fe 100644
--- a/src/util.c
+++ b/src/util.c
@@ -61,7 +61,9 @@ void PARMCI_Fence(int proc) {
   gmr_t *cur_mreg = gmr_list;
 
   while (cur_mreg) {
-    gmr_flush(cur_mreg, proc, 0);
+    /* proc may not be a member of the allocation's group */
+    if (ARMCII_Translate_absolute_to_group(&cur_mreg->group, proc) >= 0)
+      gmr_flush(cur_mreg, proc, 0);
     cur_mreg = cur_mreg->next;
   }
   return;
-- 
2.43.0


From 6d9d1e375cdda0275b903a276c7d87e0b52aef5f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 09/20] fix: strided transfers whose strides are not those of a
 dense array

ARMCII_Strided_to_dtype divided strides that are not multiples of each other and
so described other elements, or an invalid subarray. Use nested vectors for them.
---
 src/strided.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..d13133b 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -26,7 +26,7 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
   int sizes   [stride_levels+1];
   int subsizes[stride_levels+1];
   int starts  [stride_levels+1];
-  int i, old_type_size;
+  int i, old_type_size, nested = 1;
 
   MPI_Type_size(old_type, &old_type_size);
 
@@ -42,6 +42,8 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
       /* This assertion is violated by what seems to be valid usage resulting from
        * the new GA API call nga_strided_get during the stride test in GA 5.2.
        * ARMCII_Assert((stride_array[i] % stride_array[i-1]) == 0); */
+      if (stride_array[i] % stride_array[i-1] != 0 || stride_array[i]/stride_array[i-1] < count[i])
+        nested = 0;
     }
   }
 
@@ -53,6 +55,20 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
     MPI_Type_contiguous(elem_count, old_type, new_type);
   }
 
+  /* The strides do not describe a subarray of a dense array */
+  else if (!nested) {
+    MPI_Datatype type;
+
+    ARMCII_Assert((count[0] % old_type_size) == 0);
+    MPI_Type_contiguous(count[0]/old_type_size, old_type, &type);
+
+    for (i = 0; i < stride_levels; i++) {
+      MPI_Type_create_hvector(count[i+1], 1, stride_array[i], type, new_type);
+      MPI_Type_free(&type);
+      type = *new_type;
+    }
+  }
+
   /* Transfer is non-contiguous */
   else {
 
-- 
2.43.0


From b8611368cd95ebc65cf50af89715b87fe5f4ba64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 10/20] fix: a short message leaves the rest of a shared
 receive buffer unchanged

With ARMCI_SHR_BUF_METHOD=COPY the whole temporary buffer, of which only the
received bytes are initialized, was copied into the caller's buffer.
---
 src/message.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..1b0c00c 100644
--- a/src/message.c
+++ b/src/message.c
@@ -203,13 +203,15 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
   MPI_Status status;
+  int        nbytes;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 }
 
 
@@ -224,13 +226,15 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
   MPI_Status status;
+  int        nbytes;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From 51ce8ea6fd0a1b3ed011a9bc017bee594e442673 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 11/20] fix: absmax and absmin with node scope apply abs to the
 caller's values

The scope is a single process, as with a group of size one.
---
 src/message_gop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..6855bca 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -204,7 +204,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  if ((group->size == 1 || comm == MPI_COMM_SELF) && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From 065272b52c1758d7785119b3f34778a2676da1a3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 12/20] fix: armci_msg_sel returns its result in a shared
 buffer

With ARMCI_SHR_BUF_METHOD=COPY the result was overwritten with the copy of the input.
---
 src/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index 1b0c00c..8154362 100644
--- a/src/message.c
+++ b/src/message.c
@@ -430,7 +430,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   data_in->type       = type;
 
   if (contribute)
-    ARMCI_Copy(x, data_in->data, n);
+    ARMCI_Copy(x_buf[0], data_in->data, n);
 
   if (strncmp(op, "min", 3) == 0) {
     MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
@@ -440,7 +440,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From ae0956fe86d04d073add5cbaeac6780f51ed9b6d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 13/20] fix: armci_msg_sel treats its record as one element

---
 src/message.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/message.c b/src/message.c
index 8154362..6ba45e8 100644
--- a/src/message.c
+++ b/src/message.c
@@ -304,12 +304,16 @@ MPI_Op ARMCI_MPI_SELMAX_OP;
   */
 void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int type_size, nbytes;
+
+  MPI_Type_size(*datatype, &type_size);
+  nbytes = *len * type_size;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, nbytes);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -322,19 +326,19 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MIN_OP(data_in, data_inout, nbytes, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MIN_OP(data_in, data_inout, nbytes, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MIN_OP(data_in, data_inout, nbytes, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MIN_OP(data_in, data_inout, nbytes, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MIN_OP(data_in, data_inout, nbytes, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -351,12 +355,16 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
   */
 void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int type_size, nbytes;
+
+  MPI_Type_size(*datatype, &type_size);
+  nbytes = *len * type_size;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, nbytes);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -369,19 +377,19 @@ void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MAX_OP(data_in, data_inout, nbytes, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MAX_OP(data_in, data_inout, nbytes, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MAX_OP(data_in, data_inout, nbytes, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MAX_OP(data_in, data_inout, nbytes, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MAX_OP(data_in, data_inout, nbytes, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -405,6 +413,7 @@ void armci_msg_sel(void *x, int n, char *op, int type, int contribute) {
   */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute) {
   MPI_Comm    sel_comm;
+  MPI_Datatype sel_type;
   sel_data_t *data_in, *data_out;
   void      **x_buf;
 
@@ -426,6 +435,10 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
 
   ARMCII_Buf_prepare_read_vec(&x, &x_buf, 1, n);
 
+  /* The record is one element: MPI may not split it */
+  MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
+  MPI_Type_commit(&sel_type);
+
   data_in->contribute = contribute;
   data_in->type       = type;
 
@@ -433,9 +446,9 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
     ARMCI_Copy(x_buf[0], data_in->data, n);
 
   if (strncmp(op, "min", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMIN_OP, sel_comm);
   } else if (strncmp(op, "max", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMAX_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMAX_OP, sel_comm);
   } else {
       ARMCII_Error("Invalid operation (%s)", op);
   }
@@ -444,6 +457,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
+  MPI_Type_free(&sel_type);
   free(data_in);
   free(data_out);
 }
-- 
2.43.0


From bf386ed8b35be45eef0b230d8df005ded84829a2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 14/20] fix: ARMCI_PutS_flag returns zero on success

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index d13133b..be4bc5f 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -677,7 +677,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From 7064342a94b6aee339fcfed3a16e8268418e45be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 15/20] fix: check the bounds of contiguous transfers to the
 caller's own process

---
 src/onesided.c    | 4 ++++
 src/onesided_nb.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/onesided.c b/src/onesided.c
index 490626a..05ecf91 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -99,6 +99,8 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)src + size <= (uint8_t*)src_mreg->slices[target].base + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
@@ -162,6 +164,8 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)dst + size <= (uint8_t*)dst_mreg->slices[target].base + dst_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 3685314..e519aa7 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -97,6 +97,8 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+      ARMCII_Assert_msg((uint8_t*)dst + size <= (uint8_t*)dst_mreg->slices[target].base + dst_mreg->slices[target].size,
+                        "Transfer is out of range");
       ARMCI_Copy(src, dst, size);
   }
   else {
@@ -136,6 +138,8 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)src + size <= (uint8_t*)src_mreg->slices[target].base + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
   else {
-- 
2.43.0


From 628a452cca8e22c8f88fbab75760f3760e46a18a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 16/20] fix: provide ARMCI_WaitProc when weak symbols are not
 available

---
 src/parmci.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parmci.c b/src/parmci.c
index a80f76c..776381b 100644
--- a/src/parmci.c
+++ b/src/parmci.c
@@ -177,6 +177,11 @@ int ARMCI_WaitAll(void) {
   return PARMCI_WaitAll();
 }
 
+#pragma weak ARMCI_WaitProc
+int ARMCI_WaitProc(int proc) {
+  return PARMCI_WaitProc(proc);
+}
+
 #pragma weak ARMCI_NbPut
 int ARMCI_NbPut(void *src, void *dst, int bytes, int proc, armci_hdl_t *hdl) {
   return PARMCI_NbPut(src, dst, bytes, proc, hdl);
-- 
2.43.0


From 2d7c416b62c879ad8e6a0fdcc737acc8b63bea3d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 17/20] fix: scaling a complex accumulate does not run past a
 partial element

ARMCII_Buf_acc_scale stepped through pairs of parts up to the number of parts,
so a size that is not a multiple of the complex type made it read and write
one part beyond both buffers before the size check at its end, which in turn
compared with the size of one part.
---
 src/buffer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buffer.c b/src/buffer.c
index 28c15f8..7b438c9 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -380,7 +380,8 @@ void ARMCII_Buf_acc_scale(void *buf_in, void *buf_out, int size, int datatype, v
 
     case ARMCI_ACC_CPL:
       MPI_Type_size(MPI_FLOAT, &type_size);
-      nelem= size/type_size;
+      type_size *= 2; /* an element has two parts: do not touch half of one */
+      nelem= 2*(size/type_size);
 
       {
         float *src_fc = (float*) buf_in;
@@ -404,7 +405,8 @@ void ARMCII_Buf_acc_scale(void *buf_in, void *buf_out, int size, int datatype, v
 
     case ARMCI_ACC_DCP:
       MPI_Type_size(MPI_DOUBLE, &type_size);
-      nelem= size/type_size;
+      type_size *= 2; /* an element has two parts: do not touch half of one */
+      nelem= 2*(size/type_size);
 
       {
         double *src_dc = (double*) buf_in;
-- 
2.43.0


From b9b83fa3b55d0a35f99ba482068878f81351cd0f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 18/20] fix: room for the terminator of Intel MPI version
 strings

sprintf of a four-digit major and a two-digit minor version needs eight bytes.
---
 src/init_finalize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 76c6d0b..9a423d7 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -149,7 +149,7 @@ static void ARMCII_Parse_library_version(char * library_version, enum ARMCII_MPI
       char impi_patch[6] = {0}; /* ".PrcX" is max since major=2+ */
       for (int major = 2030; major >= 2000; major--) {
         for (int minor = 30; minor >= 0; minor--) {
-          char version_string[7] = {0};
+          char version_string[8] = {0}; /* "2030.30" and the terminator */
           sprintf(version_string,"%d.%d",major,minor);
           char * p = strstr(library_version,version_string);
           if (p != NULL) {
-- 
2.43.0


From b8b7c41f50eef2536f1d782cefbe5aca588c427a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 19/20] fix: displacements of strided transfers do not overflow
 an int

---
 src/strided.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index be4bc5f..b1d4928 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -486,15 +486,15 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
       idx[i] = 0;
 
     for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      MPI_Aint disp_src = 0;
+      MPI_Aint disp_dst = 0;
 
       ARMCII_Assert(xfer < iov->ptr_array_len);
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += (MPI_Aint) src_stride_ar[i]*idx[i];
+        disp_dst += (MPI_Aint) dst_stride_ar[i]*idx[i];
       }
 
       // Add to the IO Vector
-- 
2.43.0


From 27d30675eff6f8620928173bfdd8ef30a31d8a86 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 20/20] fix: the binary tree over a node has the caller as its
 root and no parent

---
 src/message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 6ba45e8..79f5914 100644
--- a/src/message.c
+++ b/src/message.c
@@ -262,7 +262,8 @@ void armci_msg_bintree(int scope, int *root, int *up, int *left, int *right) {
   int me, nproc;
 
   if (scope == SCOPE_NODE) {
-    *root  = 0;
+    *root  = armci_msg_me();
+    *up    = -1;
     *left  = -1;
     *right = -1;
    
-- 
2.43.0

