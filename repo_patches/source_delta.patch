From f0af19f1ab71351f894b3586ba65051c1ca44265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 01/32] fix: mdbx_replace_ex() must unlink the stack cursor on
 the EINVAL path

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index fb8a379..4806efb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10922,8 +10922,10 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
       goto bailout;
   } else {
     /* в old_data буфер для сохранения предыдущего значения */
-    if (unlikely(new_data && old_data->iov_base == new_data->iov_base))
-      return LOG_IFERR(MDBX_EINVAL);
+    if (unlikely(new_data && old_data->iov_base == new_data->iov_base)) {
+      rc = MDBX_EINVAL;
+      goto bailout;
+    }
     MDBX_val present_data;
     rc = cursor_seek(&cx.outer, &present_key, &present_data, MDBX_SET_KEY).err;
     if (unlikely(rc != MDBX_SUCCESS)) {
-- 
2.43.0


From c26fa35f4e2acb8affe8fb937b9a9f1ad087193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 02/32] fix: mdbx_txn_abort_ex() with latency must not spin
 forever for read transactions

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 4806efb..505bf07 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40889,7 +40889,7 @@ int txn_abort(MDBX_txn *txn, MDBX_commit_latency *latency) {
       do {
         snap = *latency;
         txn_latency_gcprof(txn->env, latency);
-      } while (unlikely(memcpy(latency, &snap, sizeof(snap))));
+      } while (unlikely(memcmp(latency, &snap, sizeof(snap))));
     }
   }
 
-- 
2.43.0


From 39e2daa903136c7528d3f86563c26b16de1c4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 03/32] fix: failed commit inside
 mdbx_txn_commit_embark_read()/checkpoint must not crash, keep tables of the
 lost transaction or unlock twice

---
 mdbx.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 505bf07..2c6ae09 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11372,22 +11372,29 @@ int mdbx_txn_commit_embark_read(MDBX_txn **ptxn, MDBX_commit_latency *latency) {
   MDBX_txn *rtxn = nullptr;
   if (wtxn == env->basal_txn) {
     void *const preserved_context = wtxn->userctx;
+    bool locked = true;
     rc = txn_basal_commit(wtxn, latency ? &ts : nullptr);
-    if (likely(rc == MDBX_SUCCESS)) {
+    if (unlikely(rc != MDBX_SUCCESS))
+      wtxn->flags |= MDBX_TXN_ERROR;
+    else {
       rc = txn_basal_end(wtxn, /* завершение транзакции без освобождения блокировки */ false);
       if (likely(rc == MDBX_SUCCESS)) {
         rtxn = txn_alloc(txn_ro_flat, env);
         rc = likely(rtxn) ? txn_ro_start(rtxn, false) : MDBX_ENOMEM;
-      }
+      } else
+        /* в случае ошибки блокировка уже освобождена */
+        locked = false;
     }
 
-    const int err = txn_basal_end(wtxn, /* освобождение блокировки */ true);
-    if (unlikely(err != MDBX_SUCCESS) && rc == MDBX_SUCCESS)
-      rc = err;
+    if (likely(locked)) {
+      const int err = txn_basal_end(wtxn, /* освобождение блокировки */ true);
+      if (unlikely(err != MDBX_SUCCESS) && rc == MDBX_SUCCESS)
+        rc = err;
+    }
     if (likely(rc == MDBX_SUCCESS)) {
       rtxn->userctx = preserved_context;
       rtxn->signature = txn_signature;
-    } else {
+    } else if (rtxn) {
       txn_ro_free(rtxn);
       rtxn = nullptr;
     }
@@ -39533,8 +39540,11 @@ int txn_basal_checkpoint(MDBX_txn *txn, MDBX_txn_flags_t weakening_durability, s
       /* txn->userctx = preserved_context; */
       return txn_basal_start(txn, preserved_flags | txn_rw_already_locked);
     }
+    /* the writer lock was already released by the failed txn_basal_end() */
+    return rc;
   }
 
+  txn->flags |= MDBX_TXN_ERROR;
   int err = txn_basal_end(txn, true);
   return (err == MDBX_SUCCESS) ? rc : err;
 }
-- 
2.43.0


From 367f8717d97ab4bc3d16e4872aaf57616ce07f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 04/32] fix: mdbx_env_defrag() must end the transaction it
 started when the initialization fails

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 2c6ae09..8cabb11 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8664,8 +8664,12 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
                                                                                      : txn->env->maxgc_large1page;
 
   rc = defrag_init(&dfc, txn, defrag_atleast, time_atleast_dot16, defrag_enough, time_limit_dot16, preferred_batch);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    defrag_destroy(&dfc);
+    if (txn->userctx == &dfc)
+      txn_basal_end(txn, true);
     return LOG_IFERR(rc);
+  }
 
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
-- 
2.43.0


From a31832c9a98d4c98e16fd4790a0958e17e6d29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 05/32] fix: failed lock of the readers table during
 dxb_resize() must not lead to unlocking it

---
 mdbx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx.c b/mdbx.c
index 8cabb11..b1d6f7d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -19903,6 +19903,7 @@ __cold int dxb_resize(MDBX_env *const env, const pgno_t allocated_pgno, const pg
       if (lck) {
         int err = lck_rdt_lock(env) /* lock readers table until remap done */;
         if (unlikely(MDBX_IS_ERROR(err))) {
+          mresize_flags &= ~(MDBX_MRESIZE_MAY_UNMAP | MDBX_MRESIZE_MAY_MOVE);
           rc = err;
           goto bailout;
         }
-- 
2.43.0


From a26f7f7130eb536ce52a2191c672412b2ec56aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 06/32] fix: mdbx_cursor_renew() must reject a NULL or invalid
 transaction instead of dereferencing it

---
 mdbx.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index b1d6f7d..edc6eeb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5598,7 +5598,14 @@ MDBX_cursor *mdbx_cursor_create(void *context) {
 }
 
 int mdbx_cursor_renew(MDBX_txn *txn, MDBX_cursor *mc) {
-  return likely(mc) ? mdbx_cursor_bind(txn, mc, (kvx_t *)mc->clc - txn->env->kvs) : LOG_IFERR(MDBX_EINVAL);
+  if (unlikely(!mc))
+    return LOG_IFERR(MDBX_EINVAL);
+
+  int rc = check_txn(txn, MDBX_TXN_FINISHED | MDBX_TXN_HAS_CHILD);
+  if (unlikely(rc != MDBX_SUCCESS))
+    return LOG_IFERR(rc);
+
+  return mdbx_cursor_bind(txn, mc, (kvx_t *)mc->clc - txn->env->kvs);
 }
 
 int mdbx_cursor_reset(MDBX_cursor *mc) {
-- 
2.43.0


From 2d11054e3ea58ec93dd37e3ffa9785e529bb358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 07/32] fix: mdbx_txn_clone() must not reset a handle passed
 for reuse which is invalid or belongs to a write transaction

---
 mdbx.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index edc6eeb..0ac5b4d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11639,6 +11639,15 @@ int mdbx_txn_clone(const MDBX_txn *source, MDBX_txn **in_out_clone, void *clone_
     return LOG_IFERR(MDBX_EINVAL);
 
   MDBX_txn *clone = *in_out_clone;
+  if (clone) {
+    /* don't touch an unsuitable handle, including at the bailout */
+    int err = check_txn(clone, 0);
+    if (unlikely(err != MDBX_SUCCESS))
+      return LOG_IFERR(err);
+    if (unlikely((clone->flags & txn_ro_flat) == 0))
+      return LOG_IFERR(MDBX_EINVAL);
+  }
+
 retry:
   osal_memory_fence(mo_AcquireRelease, true);
   int rc = check_txn_anythread(
@@ -11662,14 +11671,6 @@ retry:
 
   const txnid_t txnid = source->txnid;
   if (clone) {
-    rc = check_txn(clone, 0);
-    if (unlikely(rc != MDBX_SUCCESS))
-      goto bailout;
-    if (unlikely((clone->flags & txn_ro_flat) == 0)) {
-      rc = MDBX_EINVAL;
-      goto bailout;
-    }
-
     if (clone_context == clone)
       clone_context = clone->userctx;
 
-- 
2.43.0


From 21dc66c3bcb6e0d805ab1f269bfcea3968386b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 08/32] fix: a failed copy of a large page during
 defragmentation was ignored, losing its content

---
 mdbx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 0ac5b4d..69ba80e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18381,9 +18381,8 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
 #if MDBX_USE_COPYFILERANGE
         const ssize_t remainted = pgno2bytes(env, npages - i);
         const ssize_t copied = copy_file_range(env->dxb_mmap.fd, &off_src, env->dxb_mmap.fd, &off_dst, remainted, 0);
-        err = MDBX_SUCCESS;
         if (unlikely(copied != remainted))
-          err = (copied < 0) ? errno : MDBX_EIO;
+          return (copied < 0) ? errno : MDBX_EIO;
         break;
 #else
 #if MDBX_CHECKING > 1
-- 
2.43.0


From ae3deaa8984ee2f9e58b26990c4eb6ad4d717aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 09/32] fix: iov_page() reported success after a failed write
 of the full ring

---
 mdbx.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 69ba80e..58aab72 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -32903,12 +32903,12 @@ int iov_page(MDBX_txn *txn, iov_ctx_t *ctx, page_t *dp, size_t npages) {
       }
       err = iov_write(ctx);
       cASSERT0(txn, iov_empty(ctx));
-      if (likely(err == MDBX_SUCCESS)) {
-        err = osal_ioring_add(ctx->ior, pgno2bytes(env, dp->pgno), dp, pgno2bytes(env, npages));
-        if (unlikely(err != MDBX_SUCCESS)) {
-          iov_complete(ctx);
-          return ctx->err = err;
-        }
+      if (unlikely(err != MDBX_SUCCESS))
+        return err;
+      err = osal_ioring_add(ctx->ior, pgno2bytes(env, dp->pgno), dp, pgno2bytes(env, npages));
+      if (unlikely(err != MDBX_SUCCESS)) {
+        iov_complete(ctx);
+        return ctx->err = err;
       }
       cASSERT0(txn, ctx->err == MDBX_SUCCESS);
     }
-- 
2.43.0


From 187e0c43693dc9e8a88ed60f7a2381121c820ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 10/32] fix: an error while spilling was overwritten by the
 result of the final write

---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 58aab72..ccf7410 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36417,8 +36417,8 @@ __cold int spill_slowpath(MDBX_txn *const txn, MDBX_cursor *const m0, const intp
     tASSERT1(txn, txn_dpl_check(txn));
 
     if (!iov_empty(&ctx)) {
-      cASSERT0(txn, rc == MDBX_SUCCESS);
-      rc = iov_write(&ctx);
+      const int err = iov_write(&ctx);
+      rc = likely(rc == MDBX_SUCCESS) ? err : rc;
     }
     if (unlikely(rc != MDBX_SUCCESS))
       goto bailout;
-- 
2.43.0


From 3eb8af40688fd6c5e112a666762cba7cb35bb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 11/32] fix: meta_wipe_steady() forgot to flush a wiped meta
 page when a later one needed no wiping

---
 mdbx.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index ccf7410..42b7959 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -27510,13 +27510,14 @@ static int meta_unsteady(MDBX_env *env, const txnid_t inclusive_upto, const pgno
 }
 
 __cold int meta_wipe_steady(MDBX_env *env, txnid_t inclusive_upto) {
-  int err = meta_unsteady(env, inclusive_upto, 0);
-  if (likely(!MDBX_IS_ERROR(err)))
-    err = meta_unsteady(env, inclusive_upto, 1);
-  if (likely(!MDBX_IS_ERROR(err)))
-    err = meta_unsteady(env, inclusive_upto, 2);
+  bool wiped = false;
+  int err = MDBX_RESULT_FALSE;
+  for (pgno_t pgno = 0; pgno < NUM_METAS && likely(!MDBX_IS_ERROR(err)); ++pgno) {
+    err = meta_unsteady(env, inclusive_upto, pgno);
+    wiped |= err == MDBX_RESULT_TRUE;
+  }
 
-  if (err == MDBX_RESULT_TRUE) {
+  if (wiped && likely(!MDBX_IS_ERROR(err))) {
     err = MDBX_SUCCESS;
     if (!MDBX_AVOID_MSYNC && (env->flags & MDBX_WRITEMAP))
       err = dxb_msync(env, NUM_METAS, MDBX_SYNC_DATA | MDBX_SYNC_IODQ);
-- 
2.43.0


From 4813155c95bacbc447f16d3a7c3b3f838fe79bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 12/32] fix: pages moved by defragmentation were not flushed
 before the meta-page was updated

---
 mdbx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 42b7959..4443f07 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18362,6 +18362,11 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
       return err;
   }
 
+  /* The moved pages are written via the lazy fd or into the map, and so must be flushed before updating a meta-page. */
+  txn->env->lck->unsynced_pages.weak += npages;
+  if (!txn->env->lck->eoos_timestamp.weak)
+    txn->env->lck->eoos_timestamp.weak = osal_monotime();
+
   DEBUG("moved %u pages %u -> %u", arc->npages, arc->key_or_pgno, arc->mapped);
   dfc->cycle_pages_moved += npages;
   if (unlikely(npages > 1)) {
-- 
2.43.0


From 7c8f8044a9c0e13d9a59e0f95c29d4070a1cf552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 13/32] fix: compacting copy hung forever when the writer
 thread failed while both buffers were in use

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 4443f07..516a53d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4770,6 +4770,9 @@ __cold static THREAD_RESULT THREAD_CALL compacting_write_thread(void *arg) {
     osal_condpair_signal(&ctx->condpair, false);
   }
 bailout:
+  if (ctx->error)
+    /* wake up the producer which may be waiting for a free buffer */
+    osal_condpair_signal(&ctx->condpair, false);
   osal_condpair_unlock(&ctx->condpair);
   return (THREAD_RESULT)0;
 }
-- 
2.43.0


From b63fb0214869584ec4f935a94ed6ed228c519b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 14/32] fix: as-is copy into a pipe wrote the original meta
 pages between the new ones and the data

---
 mdbx.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 516a53d..dda5cfe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5229,7 +5229,6 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     rc = osal_write(fd, buffer, meta_bytes);
     if (unlikely(rc != MDBX_SUCCESS))
       return rc;
-    offset = 0;
   }
 
 #if MDBX_USE_COPYFILERANGE
-- 
2.43.0


From 81df98b57b4f8756af0e8b9203cda73814d05505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 15/32] fix: as-is copy got meta pages of an empty database,
 losing all data

---
 mdbx.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index dda5cfe..18a5e05 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5207,6 +5207,16 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
   meta_t *const meta = meta_init_triplet(env, buffer);
   meta_set_txnid(env, meta, txn->txnid);
 
+  /* the copy is exactly the snapshot of given transaction */
+  meta->geometry = txn->geo;
+  meta->trees.gc = txn->dbs[FREE_DBI];
+  meta->trees.main = txn->dbs[MAIN_DBI];
+  if ((!meta->trees.gc.mod_txnid && meta->trees.gc.root != P_INVALID) ||
+      (!meta->trees.main.mod_txnid && meta->trees.main.root != P_INVALID))
+    /* retain the legacy version for b-trees without mod-txnid */
+    memcpy(&meta->magic_and_version, &METAPAGE(env, 0)->magic_and_version, sizeof(meta->magic_and_version));
+  meta_sign_as_steady(meta);
+
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
     meta_make_sizeable(meta);
 
-- 
2.43.0


From 1687ce4aac292b39fb23d56a0750972228ddcc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 16/32] fix: compacting copy into a pipe wrote the number of
 the source's root page into the meta pages

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 18a5e05..26734ea 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5128,9 +5128,13 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
         if (!meta->trees.main.mod_txnid)
           meta->trees.main.mod_txnid = txn->txnid;
         compacting_fixup_meta(env, meta);
+        /* the root is written last, so its number in the copy is known in advance */
+        const pgno_t root = meta->trees.main.root;
+        meta->trees.main.root = meta->geometry.first_unallocated - 1;
         if (flags & MDBX_CP_THROTTLE_MVCC)
           mdbx_txn_park(txn, false);
         rc = osal_write(fd, buffer, meta_bytes);
+        meta->trees.main.root = root;
         if (likely(rc == MDBX_SUCCESS) && (flags & MDBX_CP_THROTTLE_MVCC) != 0)
           rc = mdbx_txn_unpark(txn, false);
       }
-- 
2.43.0


From ddc08d36eac3d635056c72909eb7638f00b5adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 17/32] fix: as-is copy wrote misplaced data when falling back
 from copy_file_range() half-way

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 26734ea..67514fa 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5323,7 +5323,8 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
       if (unlikely(rc != MDBX_SUCCESS))
         break;
     }
-    rc = osal_write(fd, data_buffer, chunk);
+    /* copy_file_range() above doesn't move the file position */
+    rc = dest_is_pipe ? osal_write(fd, data_buffer, chunk) : osal_pwrite(fd, data_buffer, chunk, offset);
     offset += chunk;
   }
 
-- 
2.43.0


From fbf5123356d4ad279a75ea21f879b4bfce8d28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 18/32] fix: clone of a parked read transaction was not
 registered as a reader, and a failed clone aborted the process

---
 mdbx.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 67514fa..cd2e89c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40727,7 +40727,9 @@ int txn_ro_clone(const MDBX_txn *const origin, MDBX_txn *const clone) {
       const uint64_t pages_retired = origin->ro.slot ? origin->ro.slot->snapshot_pages_retired.weak : 0;
       atomic_store32(&clone->ro.slot->snapshot_pages_used, pages_used, mo_Relaxed);
       atomic_store64(&clone->ro.slot->snapshot_pages_retired, pages_retired, mo_Relaxed);
-      safe64_write(&clone->ro.slot->txnid, (clone->flags & MDBX_TXN_PARKED) ? MDBX_TID_TXN_PARKED : clone->txnid);
+      if (clone->flags & MDBX_TXN_PARKED)
+        atomic_store64(&clone->ro.slot->tid, MDBX_TID_TXN_PARKED, mo_AcquireRelease);
+      safe64_write(&clone->ro.slot->txnid, clone->txnid);
     } else {
       /* exclusive mode without lck */
       eASSERT0(env, !env->lck_mmap.lck && env->lck == lckless_stub(env));
@@ -40757,16 +40759,23 @@ int txn_ro_clone(const MDBX_txn *const origin, MDBX_txn *const clone) {
     clone->dbi_seqs[FREE_DBI] = origin->dbi_seqs[FREE_DBI];
     clone->dbi_seqs[MAIN_DBI] = origin->dbi_seqs[MAIN_DBI];
 
-    if (!(clone->flags & MDBX_TXN_PARKED)) {
-      if (likely(clone->ro.slot) && unlikely(clone->txnid != atomic_load64(&clone->ro.slot->txnid, mo_Relaxed)))
-        return MDBX_OUSTED;
-      if (unlikely(clone->txnid < atomic_load64(&env->lck->cached_oldest_txnid, mo_AcquireRelease)))
-        return MDBX_MVCC_RETARDED;
-    }
-    return MDBX_SUCCESS;
-  }
+    if (clone->flags & MDBX_TXN_PARKED) {
+      if (likely(origin->ro.slot) && unlikely(safe64_read(&origin->ro.slot->tid) != MDBX_TID_TXN_PARKED))
+        err = MDBX_OUSTED;
+    } else if (likely(clone->ro.slot) && unlikely(clone->txnid != atomic_load64(&clone->ro.slot->txnid, mo_Relaxed)))
+      err = MDBX_OUSTED;
+    if (likely(err == MDBX_SUCCESS) &&
+        unlikely(clone->txnid < atomic_load64(&env->lck->cached_oldest_txnid, mo_AcquireRelease)))
+      err = MDBX_MVCC_RETARDED;
+  } else
+    err = ro_seize(clone);
 
-  return ro_seize(clone);
+  if (unlikely(err != MDBX_SUCCESS)) {
+    /* the slot could be already published, so let ro_slot_clean() to clean it without ENSURE-fail */
+    clone->flags -= clone->flags & MDBX_TXN_FINISHED;
+    clone->flags |= MDBX_TXN_PARKED;
+  }
+  return err;
 }
 
 pgop_stat_t *txn_latency_gcprof(const MDBX_env *env, MDBX_commit_latency *latency) {
-- 
2.43.0


From 91b417835b2b6b16460d532edd4e28c02f99b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 19/32] fix: mdbx_txn_park() crashed in the without-lck mode

---
 mdbx.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index cd2e89c..cae25c4 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40625,10 +40625,16 @@ void txn_ro_free(MDBX_txn *txn) {
 int txn_ro_park(MDBX_txn *txn, bool autounpark) {
   reader_slot_t *const slot = txn->ro.slot;
   cASSERT0(txn, (txn->flags & (MDBX_TXN_FINISHED | txn_ro_flat | MDBX_TXN_PARKED)) == txn_ro_flat);
-  cASSERT0(txn, ro_slot_tid(slot) < MDBX_TID_TXN_OUSTED);
+  cASSERT0(txn, !slot || ro_slot_tid(slot) < MDBX_TID_TXN_OUSTED);
   if (unlikely((txn->flags & (MDBX_TXN_FINISHED | txn_ro_flat | MDBX_TXN_PARKED)) != txn_ro_flat))
     return MDBX_BAD_TXN;
 
+  if (unlikely(!slot)) {
+    /* without-lck mode, there is nobody to oust the transaction */
+    txn->flags += autounpark ? MDBX_TXN_PARKED | MDBX_TXN_AUTOUNPARK : MDBX_TXN_PARKED;
+    return MDBX_SUCCESS;
+  }
+
   const mdbx_pid_t pid = atomic_load_pid(&slot->pid, mo_Relaxed);
   const uint64_t tid = atomic_load64(&slot->tid, mo_Relaxed);
   const txnid_t txnid = atomic_load64(&slot->txnid, mo_Relaxed);
@@ -40657,6 +40663,12 @@ int txn_ro_unpark(MDBX_txn *txn) {
                (txn_ro_flat | MDBX_TXN_PARKED)))
     return (txn->flags & MDBX_TXN_OUSTED) ? MDBX_OUSTED : MDBX_BAD_TXN;
 
+  if (unlikely(!txn->ro.slot) && (txn->flags & MDBX_TXN_ERROR) == 0) {
+    /* without-lck mode, there is nobody to oust the transaction */
+    txn->flags &= ~(MDBX_TXN_PARKED | MDBX_TXN_AUTOUNPARK);
+    return MDBX_SUCCESS;
+  }
+
   for (reader_slot_t *const slot = txn->ro.slot; slot; atomic_yield()) {
     const mdbx_pid_t pid = atomic_load_pid(&slot->pid, mo_Relaxed);
     uint64_t tid = safe64_read(&slot->tid);
-- 
2.43.0


From 62b6efd797f5e1ea449ce7878d4f3c526bba2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 20/32] fix: parking a failed read transaction left it
 unfinished without a snapshot, and aborting it then killed the process

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index cae25c4..97b0b90 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40650,7 +40650,7 @@ int txn_ro_park(MDBX_txn *txn, bool autounpark) {
   }
 
   if (unlikely((txn->flags & MDBX_TXN_ERROR)))
-    return ro_slot_clean(txn);
+    return txn_ro_reset(txn);
 
   atomic_store64(&slot->tid, MDBX_TID_TXN_PARKED, mo_AcquireRelease);
   atomic_store32(&txn->env->lck->rdt_refresh_flag, true, mo_Relaxed);
-- 
2.43.0


From faa13d1cc6129b3b75771a1f38cc324483520d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 21/32] fix: mdbx::error::is_result_true() and
 is_result_false() were swapped

---
 mdbx.c++ | 2 +-
 mdbx.h++ | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdbx.c++ b/mdbx.c++
index 4fbe273..b1bbe02 100644
--- a/mdbx.c++
+++ b/mdbx.c++
@@ -2473,7 +2473,7 @@ bool txn_managed::checkpoint(finalization_latency *latency) {
       handle_ = nullptr;
     MDBX_CXX20_UNLIKELY err.throw_exception();
   }
-  return err.is_result_true();
+  return !err.is_result_true();
 }
 
 void txn_managed::commit_embark_read(finalization_latency *latency) {
diff --git a/mdbx.h++ b/mdbx.h++
index ccf1c20..6b9bbe4 100644
--- a/mdbx.h++
+++ b/mdbx.h++
@@ -4712,9 +4712,9 @@ MDBX_CXX11_CONSTEXPR bool operator!=(const error &a, const error &b) noexcept {
 
 MDBX_CXX11_CONSTEXPR bool error::is_success() const noexcept { return code_ == MDBX_SUCCESS; }
 
-MDBX_CXX11_CONSTEXPR bool error::is_result_true() const noexcept { return code_ == MDBX_RESULT_FALSE; }
+MDBX_CXX11_CONSTEXPR bool error::is_result_true() const noexcept { return code_ == MDBX_RESULT_TRUE; }
 
-MDBX_CXX11_CONSTEXPR bool error::is_result_false() const noexcept { return code_ == MDBX_RESULT_TRUE; }
+MDBX_CXX11_CONSTEXPR bool error::is_result_false() const noexcept { return code_ == MDBX_RESULT_FALSE; }
 
 MDBX_CXX11_CONSTEXPR bool error::is_failure() const noexcept {
   return code_ != MDBX_SUCCESS && code_ != MDBX_RESULT_TRUE;
-- 
2.43.0


From c6da59aae85a9547cd4359aad47fd4e36d717fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 22/32] fix: mdbx_dump -a exited with status 0 when reading the
 list of tables or opening the first one failed

---
 mdbx_dump.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mdbx_dump.c b/mdbx_dump.c
index a1bfe8d..c5f9de4 100644
--- a/mdbx_dump.c
+++ b/mdbx_dump.c
@@ -488,12 +488,14 @@ int main(int argc, char *argv[]) {
     mdbx_cursor_close(cursor);
     cursor = nullptr;
 
-    if (have_raw && (!count /* || rescue */))
-      err = dump_tbl(txn, MAIN_DBI, nullptr);
-    else if (!count) {
-      if (!quiet)
-        fprintf(stderr, "%s: %s does not contain multiple databases\n", prog, envname);
-      err = MDBX_NOTFOUND;
+    if (err == MDBX_NOTFOUND || rescue) {
+      if (have_raw && (!count /* || rescue */))
+        err = dump_tbl(txn, MAIN_DBI, nullptr);
+      else if (!count) {
+        if (!quiet)
+          fprintf(stderr, "%s: %s does not contain multiple databases\n", prog, envname);
+        err = MDBX_NOTFOUND;
+      }
     }
   } else {
     err = dump_tbl(txn, dbi, subname);
-- 
2.43.0


From ff5a91b95b369d9688b47428d5b312e495ced222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 23/32] fix: mdbx_stat -rr lost the error of the second reader
 list

---
 mdbx_stat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx_stat.c b/mdbx_stat.c
index e73cf5d..4c19cd4 100644
--- a/mdbx_stat.c
+++ b/mdbx_stat.c
@@ -367,6 +367,10 @@ int main(int argc, char *argv[]) {
       if (rc == MDBX_RESULT_TRUE) {
         printf("  %d stale readers cleared.\n", dead);
         rc = mdbx_reader_list(env, reader_list_func, nullptr);
+        if (MDBX_IS_ERROR(rc)) {
+          error("mdbx_reader_list", rc);
+          goto txn_abort;
+        }
         if (rc == MDBX_RESULT_TRUE)
           printf("  Now Reader Table is empty\n");
       } else
-- 
2.43.0


From fb81b07755651c942ab4962a77026eeed1c2c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 24/32] fix: mdbx_env_open() overwrote an existing non-empty
 file which is shorter than the meta pages

A short read of a meta page (MDBX_ENODATA) was taken for an empty file, so
that a truncated database, or any other small file, was replaced by a new
empty database instead of being refused.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 97b0b90..3b1ece0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20250,7 +20250,7 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
   int err = dxb_read_header(env, &header, lck_rc, mode_bits);
   if (unlikely(err != MDBX_SUCCESS)) {
     if (lck_rc != /* lck exclusive */ MDBX_RESULT_TRUE || err != MDBX_ENODATA || (env->flags & MDBX_RDONLY) != 0 ||
-        /* recovery mode */ env->stuck_meta >= 0)
+        /* recovery mode */ env->stuck_meta >= 0 || /* never overwrite a non-empty file */ env->dxb_mmap.filesize != 0)
       return err;
 
     DEBUG("%s", "create new database");
-- 
2.43.0


From 201a82965f217afc2c2c14f2054a0a770a7cee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 25/32] fix: mdbx_txn_amend() crashed with the write lock held
 when the environment is opened read-only

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 3b1ece0..4f3d001 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11781,6 +11781,9 @@ int mdbx_txn_amend(MDBX_txn *rtxn, MDBX_txn **ptxn, MDBX_txn_flags_t flags, void
   if (unlikely((rtxn->flags & txn_ro_flat) == 0))
     return LOG_IFERR(MDBX_BAD_TXN);
 
+  if (unlikely(env->flags & MDBX_RDONLY)) /* write txn in RDONLY env */
+    return LOG_IFERR(MDBX_EACCESS);
+
   /* avoid recursive deadlock */
   if (env->txn && env->basal_txn->owner == osal_thread_self())
     return LOG_IFERR(MDBX_TXN_OVERLAPPING);
-- 
2.43.0


From 3f4ee17401f5ffcf0982d719b55824a2688aeb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 26/32] fix: publish the flags of MainDB after they were
 renewed

The condition after tbl_setup() tested the sequence number instead of the
result code, so once the flags of MainDB had changed the handle was left
poisoned and mdbx_dbi_open() refused it with MDBX_INCOMPATIBLE.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 4f3d001..0c92bbe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -41016,7 +41016,7 @@ __cold static slr_t latch_maindb_locked(MDBX_txn *txn, MDBX_env *const env) {
   }
 
   slr.err = tbl_setup(env, &env->kvs[MAIN_DBI], &txn->dbs[MAIN_DBI]);
-  if (likely(slr.seq == MDBX_SUCCESS)) {
+  if (likely(slr.err == MDBX_SUCCESS)) {
     slr.seq = dbi_seq_next(env, MAIN_DBI);
     env->dbs_flags[MAIN_DBI] = DB_VALID | txn->dbs[MAIN_DBI].flags;
     atomic_store32(&env->dbi_seqs[MAIN_DBI], slr.seq, mo_AcquireRelease);
-- 
2.43.0


From e4e56d063124999385471c4b3d7bc58effcf16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 27/32] fix: change the handle of MainDB only under the handle
 lock

mdbx_dbi_open() with MDBX_CREATE re-creates an empty MainDB with other flags
via dbi_bind(), which was called without dbi_lock. A concurrent start of a
transaction, which renews the same handle under the lock, could publish the
old flags with the very same sequence number.
---
 mdbx.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 0c92bbe..b1abb9e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17669,13 +17669,21 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
 
   /* main table? */
   if (unlikely(name == MDBX_CHK_MAIN || name->iov_base == MDBX_CHK_MAIN)) {
-    rc = dbi_bind(txn, MAIN_DBI, user_flags, keycmp, datacmp);
+    rc = osal_fastmutex_acquire(&txn->env->dbi_lock);
+    if (likely(rc == MDBX_SUCCESS)) {
+      rc = dbi_bind(txn, MAIN_DBI, user_flags, keycmp, datacmp);
+      ENSURE_OBJ(txn->env, osal_fastmutex_release(&txn->env->dbi_lock) == MDBX_SUCCESS);
+    }
     if (likely(rc == MDBX_SUCCESS))
       *dbi = MAIN_DBI;
     return rc;
   }
   if (unlikely(name == MDBX_CHK_GC || name->iov_base == MDBX_CHK_GC)) {
-    rc = dbi_bind(txn, FREE_DBI, user_flags, keycmp, datacmp);
+    rc = osal_fastmutex_acquire(&txn->env->dbi_lock);
+    if (likely(rc == MDBX_SUCCESS)) {
+      rc = dbi_bind(txn, FREE_DBI, user_flags, keycmp, datacmp);
+      ENSURE_OBJ(txn->env, osal_fastmutex_release(&txn->env->dbi_lock) == MDBX_SUCCESS);
+    }
     if (likely(rc == MDBX_SUCCESS))
       *dbi = FREE_DBI;
     return rc;
-- 
2.43.0


From c8fff35980c5dada455b4bd24516dfaed1ad35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 28/32] fix: close the handle when its table could not be
 re-created

The handle of a table which was deleted by another process was only marked
as free when re-creating the table failed: its sequence number was left
unchanged and the name was leaked as soon as the slot was used again.
---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index b1abb9e..4f39458 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17639,14 +17639,15 @@ done:
 
 bailout:
   txn->dbi_state[slot] &= DBI_LINDO | DBI_OLDEN;
-  env->dbs_flags[slot] = 0;
   if (clone) {
+    env->dbs_flags[slot] = 0;
     eASSERT0(env, !txn->cursors[slot] && !env->kvs[slot].name.iov_len && !env->kvs[slot].name.iov_base);
     osal_free(clone);
     if (slot + 1 == env->n_dbi)
       txn->n_dbi = env->n_dbi = (unsigned)slot;
   } else {
     eASSERT0(env, name.iov_base == env->kvs[slot].name.iov_base);
+    *defer_chain = dbi_close_locked(env, slot);
   }
   return rc;
 }
-- 
2.43.0


From a1e39da56f9e23f05cb2c16da59926d63cb138a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:01 +0000
Subject: [PATCH 29/32] fix: division by zero for MDBX_MULTIPLE with
 zero-length elements

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 4f39458..efc7f4c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15796,7 +15796,9 @@ int cursor_check_multiple(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data,
     return MDBX_INCOMPATIBLE;
   const size_t number = data[1].iov_len;
   if (unlikely(number > MAX_MAPSIZE / 2 / (BRANCH_NODE_MAX(MDBX_MAX_PAGESIZE) - NODESIZE))) {
-    /* checking for multiplication overflow */
+    /* checking for zero-length and multiplication overflow */
+    if (unlikely(data->iov_len == 0))
+      return MDBX_BAD_VALSIZE;
     if (unlikely(number > MAX_MAPSIZE / 2 / data->iov_len))
       return MDBX_TOO_LARGE;
   }
-- 
2.43.0


From 3ecdec2e32104c965bad69e772007eeb2beec5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:01 +0000
Subject: [PATCH 30/32] fix: mdbx_put(MDBX_CURRENT) removed the present values
 before the lengths were checked

---
 mdbx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index efc7f4c..5dc6b51 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10865,8 +10865,9 @@ int mdbx_put(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *data, M
         cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 1);
         rc = MDBX_EMULTIVAL;
         if ((flags & MDBX_NOOVERWRITE) == 0) {
-          flags -= MDBX_CURRENT;
-          rc = cursor_del(&cx.outer, MDBX_ALLDUPS);
+          /* the present values will be removed by cursor_put() after the lengths were checked */
+          flags = flags - MDBX_CURRENT + MDBX_ALLDUPS;
+          rc = MDBX_SUCCESS;
         }
       }
     }
-- 
2.43.0


From 5cdeb2a76d8530f90fb80d5718727dae8030982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 31/32] fix: refuse keys and multi-values which length differs
 from the one fixed by the already present

---
 mdbx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5dc6b51..e30feb7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15204,6 +15204,15 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
       return rc;
   }
 
+  if ((mc->tree->flags & MDBX_INTEGERKEY) != 0 && (mc->flags & z_inner) == 0) {
+    /* all keys must have the same length as already present ones */
+    if (rc != MDBX_NO_ROOT && page_numkeys(mc->pg[mc->top]) > 0 &&
+        unlikely(node_ks(page_node(mc->pg[mc->top], 0)) != key->iov_len))
+      return MDBX_BAD_VALSIZE;
+    if (unlikely(mc->clc->k.lmin != mc->clc->k.lmax))
+      mc->clc->k.lmin = mc->clc->k.lmax = key->iov_len;
+  }
+
   mc->flags &= ~z_after_delete;
   MDBX_val xdata, *ref_data = data;
   size_t *batch_dupfix_done = nullptr, batch_dupfix_given = 0;
@@ -15812,6 +15821,9 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
     return MDBX_BAD_VALSIZE;
   if (unlikely(data->iov_len > mc->clc->v.lmax || data->iov_len < mc->clc->v.lmin))
     return MDBX_BAD_VALSIZE;
+  if (unlikely(mc->tree->dupfix_size != data->iov_len) && (mc->tree->flags & MDBX_DUPFIXED) &&
+      mc->tree->dupfix_size /* could be fixed by another process */)
+    return MDBX_BAD_VALSIZE;
 
   uint64_t aligned_keybytes, aligned_databytes;
   MDBX_val aligned_key, aligned_data;
@@ -15832,9 +15844,6 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
       }
     } else
       return MDBX_BAD_VALSIZE;
-
-    if (unlikely(mc->clc->k.lmin != mc->clc->k.lmax))
-      mc->clc->k.lmin = mc->clc->k.lmax = key->iov_len;
   }
   if (mc->tree->flags & MDBX_INTEGERDUP) {
     if (data->iov_len == 8) {
-- 
2.43.0


From 699d54bc47d5f6f0830df1b7c5c6e70f32d3366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:04 +0000
Subject: [PATCH 32/32] fix: mdbx_chk crashed on a page number beyond the used
 part of a damaged database

---
 mdbx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index e30feb7..a0876f3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -41478,7 +41478,7 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
     }
   }
 
-  int rc = ctx->visitor(pgno, 1, ctx->userctx, ctx->deep, tbl, ctx->txn->env->ps, type, mp->txnid, err, nentries,
+  int rc = ctx->visitor(pgno, 1, ctx->userctx, ctx->deep, tbl, ctx->txn->env->ps, type, mp ? mp->txnid : 0, err, nentries,
                         payload_size, header_size, unused_size + align_bytes, parent_pgno);
   if (unlikely(rc != MDBX_SUCCESS))
     return rc;
@@ -41514,8 +41514,8 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
       const size_t npages = ((err = lp.err) == MDBX_SUCCESS) ? lp.page->pages : 1;
       const size_t pagesize = pgno2bytes(ctx->txn->env, npages);
       const size_t over_unused = pagesize - over_payload - over_header;
-      rc = ctx->visitor(large_pgno, npages, ctx->userctx, ctx->deep + 1, tbl, pagesize, page_large, lp.page->txnid, err,
-                        1, over_payload, over_header, over_unused, pgno);
+      rc = ctx->visitor(large_pgno, npages, ctx->userctx, ctx->deep + 1, tbl, pagesize, page_large,
+                        lp.page ? lp.page->txnid : 0, err, 1, over_payload, over_header, over_unused, pgno);
       if (unlikely(rc != MDBX_SUCCESS))
         return rc;
     } break;
-- 
2.43.0

