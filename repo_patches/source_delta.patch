From d9b00bb5387c4f3bd59713669f238b0740a22f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 01/30] store: let verification builds choose the limits
 (URKEL_VERIFY)

---
 src/store.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/store.c b/src/store.c
index 24af568..c542101 100644
--- a/src/store.c
+++ b/src/store.c
@@ -34,6 +34,22 @@
 #define CACHE_HASH(k) urkel_murmur3(k, URKEL_HASH_SIZE, 0)
 #define CACHE_EQUAL(a, b) (memcmp(a, b, URKEL_HASH_SIZE) == 0)
 
+#ifdef URKEL_VERIFY
+/* Verification builds choose the limits at run time. */
+extern size_t urkel_verify_max_file_size;
+extern size_t urkel_verify_max_open_files;
+extern size_t urkel_verify_write_buffer;
+extern size_t urkel_verify_read_buffer;
+#undef MAX_FILE_SIZE
+#undef MAX_OPEN_FILES
+#undef WRITE_BUFFER
+#undef READ_BUFFER
+#define MAX_FILE_SIZE urkel_verify_max_file_size
+#define MAX_OPEN_FILES urkel_verify_max_open_files
+#define WRITE_BUFFER urkel_verify_write_buffer
+#define READ_BUFFER urkel_verify_read_buffer
+#endif
+
 /*
  * Structs
  */
-- 
2.43.0


From ed94fa1f5d30923018c7d2d9317e963d7c0161c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 02/30] fix: record the full size of values longer than 255
 bytes

The pointer size parameter of urkel_node_save and urkel_node_mark was 8 bits
wide: values of 256..1023 bytes were cut to their size modulo 256 once
committed.
---
 src/nodes.c | 4 ++--
 src/nodes.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index 149db46..fc2b648 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -169,7 +169,7 @@ void
 urkel_node_mark(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   CHECK(node->type != URKEL_NODE_NULL);
 
   node->ptr.index = index;
@@ -201,7 +201,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   urkel_leaf_t *leaf = &node->u.leaf;
 
   CHECK(node->type == URKEL_NODE_LEAF);
diff --git a/src/nodes.h b/src/nodes.h
index 3e4a1b3..c8c3b63 100644
--- a/src/nodes.h
+++ b/src/nodes.h
@@ -100,7 +100,7 @@ void
 urkel_node_mark(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_store(urkel_node_t *node,
@@ -111,7 +111,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out);
-- 
2.43.0


From 5a44a698a9dbbbcaf9b1de03b838ba1de9558b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 03/30] fix: do not clear an uninitialised node when injecting
 an unknown root

---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index c542101..af5d9fb 100644
--- a/src/store.c
+++ b/src/store.c
@@ -884,7 +884,8 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  urkel_node_clear(&root);
+  if (ret)
+    urkel_node_clear(&root);
 
   return ret;
 }
-- 
2.43.0


From 2cf81ce4685773c714cfef9dfc5d7ddea2e79365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 04/30] fix: make room for the deepest tree on the iterator's
 stack

A committed tree takes two stack entries per level (the hash node and the
node read for it), so that iterating trees deeper than 128 levels aborted.
---
 src/tree.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f0ec649..4f681c8 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -15,6 +15,13 @@
 #include "store.h"
 #include "util.h"
 
+/*
+ * Defines
+ */
+
+/* A hash node and the node it resolves to, for every level. */
+#define ITER_STACK (2 * (URKEL_KEY_BITS + 1))
+
 /*
  * Structs
  */
@@ -45,7 +52,7 @@ typedef struct urkel_iter_s {
   urkel_mutex_t *lock;
   urkel_node_t *root;
   urkel_node_t *node;
-  urkel_state_t stack[URKEL_KEY_BITS];
+  urkel_state_t stack[ITER_STACK];
   size_t stack_len;
   int done;
   int transient;
@@ -1138,7 +1145,7 @@ urkel_iter_push(tree_iter_t *iter,
                 int resolved) {
   urkel_state_t *state;
 
-  CHECK(iter->stack_len < URKEL_KEY_BITS);
+  CHECK(iter->stack_len < ITER_STACK);
 
   state = &iter->stack[iter->stack_len++];
 
-- 
2.43.0


From ecd4d7aa9e077d833ff248eaa2ba5ebf888b53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 05/30] fix: free the nodes of a proof that fails to parse

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index 4f681c8..d61a8e1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -794,6 +794,7 @@ urkel_verify(int *exists,
   }
 
   if (!urkel_proof_read(&proof, proof_raw, proof_len)) {
+    urkel_proof_clear(&proof);
     urkel_errno = URKEL_EINVAL;
     return 0;
   }
-- 
2.43.0


From c5423010866788a019d1ae21d651db8d8d2e0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 06/30] fix: free the handle when opening fails

---
 src/tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree.c b/src/tree.c
index d61a8e1..6e25683 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -593,6 +593,7 @@ urkel_open(const char *prefix) {
   tree->store = urkel_store_open(prefix);
 
   if (tree->store == NULL) {
+    free(tree);
     urkel_errno = URKEL_EBADOPEN;
     return NULL;
   }
-- 
2.43.0


From 2f76a189722c9f50fd4cfa737338e8a42d587594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 07/30] fix: count the separator when limiting the path length

---
 src/store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index af5d9fb..4307665 100644
--- a/src/store.c
+++ b/src/store.c
@@ -916,7 +916,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 
   len = strlen(path);
 
-  if (len + 10 > URKEL_PATH_MAX) {
+  if (len + 11 > URKEL_PATH_MAX) {
     free(path);
     return 0;
   }
@@ -1181,7 +1181,7 @@ urkel_store_destroy(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
@@ -1244,7 +1244,7 @@ urkel_store__corrupt(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
-- 
2.43.0


From 9b750674558b5f284a09480f26b51d66e5770374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 08/30] fix: align the commit record when its padding starts a
 new file

---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 4307665..abec428 100644
--- a/src/store.c
+++ b/src/store.c
@@ -777,7 +777,8 @@ urkel_store_write_meta(data_store_t *store,
 
   urkel_node_to_hash(root, &state->root_node);
 
-  if (slab->file_pos % META_SIZE) {
+  /* The padding may itself roll over to a new file. */
+  while (slab->file_pos % META_SIZE) {
     size_t size = META_SIZE - (slab->file_pos % META_SIZE);
 
     urkel_slab_write(slab, padding, size);
-- 
2.43.0


From c6875b562d078b3aeec62e908fa34f63ca4a1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 09/30] fix: let two readers open the same file at once

---
 src/store.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/store.c b/src/store.c
index abec428..24a6af7 100644
--- a/src/store.c
+++ b/src/store.c
@@ -274,7 +274,7 @@ fail:
   return file;
 }
 
-static void
+static urkel_file_t *
 urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
   urkel_rwlock_wrlock(fm->lock);
 
@@ -289,12 +289,21 @@ urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
       fm->items[fm->len++] = NULL;
   }
 
-  CHECK(!fm->items[file->index]);
+  if (fm->items[file->index] != NULL) {
+    /* Another reader opened it in the meantime. */
+    urkel_file_t *item = fm->items[file->index];
 
-  fm->items[file->index] = file;
-  fm->size += 1;
+    urkel_file_close(file);
+
+    file = item;
+  } else {
+    fm->items[file->index] = file;
+    fm->size += 1;
+  }
 
   urkel_rwlock_wrunlock(fm->lock);
+
+  return file;
 }
 
 static urkel_file_t *
@@ -501,9 +510,7 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
     urkel_store_evict(store);
   }
 
-  urkel_filemap_insert(&store->files, file);
-
-  return file;
+  return urkel_filemap_insert(&store->files, file);
 }
 
 static void
-- 
2.43.0


From 2569a4166bdbeeca29a0617e98a4c6d06230a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 10/30] fix: clear a transaction to the injected root, not the
 last commit

---
 src/tree.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 6e25683..3ff8bf8 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -581,6 +581,15 @@ urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
   return root;
 }
 
+static urkel_node_t *
+urkel_tree_head(tree_db_t *tree) {
+  /* Stay on the injected root. */
+  if (tree->revert)
+    return urkel_store_get_history(tree->store, tree->hash);
+
+  return urkel_store_get_root(tree->store);
+}
+
 /*
  * Database
  */
@@ -857,10 +866,8 @@ urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {
 
   if (hash != NULL)
     tx->root = urkel_store_get_history(tree->store, hash);
-  else if (tree->revert)
-    tx->root = urkel_store_get_history(tree->store, tree->hash);
   else
-    tx->root = urkel_store_get_root(tree->store);
+    tx->root = urkel_tree_head(tree);
 
   tx->lock = urkel_rwlock_create();
 
@@ -891,12 +898,18 @@ urkel_tx_destroy(tree_tx_t *tx) {
 
 void
 urkel_tx_clear(tree_tx_t *tx) {
+  urkel_node_t *root;
+
   urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
 
-  urkel_node_destroy(tx->root, 1);
+  root = urkel_tree_head(tx->tree);
+
+  if (root != NULL) {
+    urkel_node_destroy(tx->root, 1);
 
-  tx->root = urkel_store_get_root(tx->tree->store);
+    tx->root = root;
+  }
 
   urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
-- 
2.43.0


From e1805eb5b1986677a96ab47e6fbe490639680273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 11/30] fix: read old roots under the read lock

Looking up a root took the tree's write lock, so a thread iterating over
the tree waited for itself forever.
---
 src/store.c | 27 +++++++++++++++++++++++----
 src/tree.c  | 19 +++----------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/store.c b/src/store.c
index 24a6af7..cfb4bd5 100644
--- a/src/store.c
+++ b/src/store.c
@@ -99,6 +99,7 @@ typedef struct urkel_store_s {
   urkel_slab_t slab;
   urkel_filemap_t files;
   urkel_cache_t cache;
+  urkel_mutex_t *lock; /* Guards the cache and last_meta. */
   urkel_rng_t rng;
   urkel_meta_t state;
   urkel_meta_t last_meta;
@@ -835,10 +836,10 @@ urkel_store_read_meta(data_store_t *store,
   return urkel_meta_read(meta, data, store->key);
 }
 
-int
-urkel_store_read_history(data_store_t *store,
-                         urkel_node_t *root,
-                         const unsigned char *root_hash) {
+static int
+urkel_store__read_history(data_store_t *store,
+                          urkel_node_t *root,
+                          const unsigned char *root_hash) {
   static const unsigned char zero_hash[URKEL_HASH_SIZE] = {0};
   urkel_node_t *root_node = &store->state.root_node;
   urkel_pointer_t *meta_ptr;
@@ -885,6 +886,22 @@ urkel_store_read_history(data_store_t *store,
   return 1;
 }
 
+int
+urkel_store_read_history(data_store_t *store,
+                         urkel_node_t *root,
+                         const unsigned char *root_hash) {
+  /* Readers may only hold a read lock. */
+  int ret;
+
+  urkel_mutex_lock(store->lock);
+
+  ret = urkel_store__read_history(store, root, root_hash);
+
+  urkel_mutex_unlock(store->lock);
+
+  return ret;
+}
+
 int
 urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
   urkel_node_t root;
@@ -1118,6 +1135,7 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   urkel_slab_init(&store->slab);
   urkel_filemap_init(&store->files);
   urkel_cache_init(&store->cache);
+  store->lock = urkel_mutex_create();
   urkel_rng_init(&store->rng);
 
   store->index = index;
@@ -1149,6 +1167,7 @@ urkel_store_clear(data_store_t *store) {
   urkel_slab_clear(&store->slab);
   urkel_filemap_clear(&store->files);
   urkel_cache_clear(&store->cache);
+  urkel_mutex_destroy(store->lock);
   urkel_rng_clear(&store->rng);
   urkel_fs_close_lock(store->lock_fd);
   urkel_fs_unlink(path);
diff --git a/src/tree.c b/src/tree.c
index 3ff8bf8..dbceb7f 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -849,19 +849,9 @@ urkel_iterate(tree_db_t *tree, const unsigned char *root) {
 tree_tx_t *
 urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {
   tree_tx_t *tx = checked_malloc(sizeof(tree_tx_t));
-  int write_lock;
 
   urkel_rwlock_rdlock(tree->lock);
 
-  write_lock = (hash != NULL || tree->revert);
-
-  /* Hold the write lock in case we
-     end up writing to the root cache. */
-  if (write_lock) {
-    urkel_rwlock_rdunlock(tree->lock);
-    urkel_rwlock_wrlock(tree->lock);
-  }
-
   tx->tree = tree;
 
   if (hash != NULL)
@@ -878,10 +868,7 @@ urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {
     tx = NULL;
   }
 
-  if (write_lock)
-    urkel_rwlock_wrunlock(tree->lock);
-  else
-    urkel_rwlock_rdunlock(tree->lock);
+  urkel_rwlock_rdunlock(tree->lock);
 
   return tx;
 }
@@ -943,7 +930,7 @@ urkel_tx_inject(tree_tx_t *tx, const unsigned char *hash) {
   urkel_node_t *root;
 
   urkel_rwlock_wrlock(tx->lock);
-  urkel_rwlock_wrlock(tx->tree->lock);
+  urkel_rwlock_rdlock(tx->tree->lock);
 
   root = urkel_store_get_history(tx->tree->store, hash);
 
@@ -955,7 +942,7 @@ urkel_tx_inject(tree_tx_t *tx, const unsigned char *hash) {
     urkel_errno = URKEL_ENOTFOUND;
   }
 
-  urkel_rwlock_wrunlock(tx->tree->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 
   return root != NULL;
-- 
2.43.0


From 298c881fd775922c115c0865ee9e3d9c6acb3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 12/30] fix: hash under a lock of its own instead of upgrading
 the transaction's

Proving waited for the transaction's write lock while holding the tree's
read lock, against the lock order of commit, and both proving and asking
for the root waited forever for an iterator of the same thread.
---
 src/tree.c | 43 ++++++++++++++++---------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index dbceb7f..adaefe1 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -37,6 +37,7 @@ typedef struct urkel_tx_s {
   tree_db_t *tree;
   urkel_node_t *root;
   urkel_rwlock_t *lock;
+  urkel_mutex_t *hash_lock; /* Guards the lazily computed hashes. */
 } tree_tx_t;
 
 typedef struct urkel_state_s {
@@ -860,9 +861,11 @@ urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {
     tx->root = urkel_tree_head(tree);
 
   tx->lock = urkel_rwlock_create();
+  tx->hash_lock = urkel_mutex_create();
 
   if (tx->root == NULL) {
     urkel_errno = URKEL_ENOTFOUND;
+    urkel_mutex_destroy(tx->hash_lock);
     urkel_rwlock_destroy(tx->lock);
     free(tx);
     tx = NULL;
@@ -878,6 +881,7 @@ urkel_tx_destroy(tree_tx_t *tx) {
   urkel_rwlock_wrlock(tx->lock);
   urkel_node_destroy(tx->root, 1);
   urkel_rwlock_wrunlock(tx->lock);
+  urkel_mutex_destroy(tx->hash_lock);
   urkel_rwlock_destroy(tx->lock);
 
   free(tx);
@@ -904,25 +908,13 @@ urkel_tx_clear(tree_tx_t *tx) {
 
 void
 urkel_tx_root(tree_tx_t *tx, unsigned char *hash) {
-  int write_lock;
-
   urkel_rwlock_rdlock(tx->lock);
-
-  write_lock = !(tx->root->flags & URKEL_FLAG_HASHED);
-
-  /* Hold the write lock when we
-     need to update the root node. */
-  if (write_lock) {
-    urkel_rwlock_rdunlock(tx->lock);
-    urkel_rwlock_wrlock(tx->lock);
-  }
+  urkel_mutex_lock(tx->hash_lock);
 
   memcpy(hash, urkel_node_hash(tx->root), URKEL_HASH_SIZE);
 
-  if (write_lock)
-    urkel_rwlock_wrunlock(tx->lock);
-  else
-    urkel_rwlock_rdunlock(tx->lock);
+  urkel_mutex_unlock(tx->hash_lock);
+  urkel_rwlock_rdunlock(tx->lock);
 }
 
 int
@@ -1034,19 +1026,17 @@ urkel_tx_prove(tree_tx_t *tx,
                size_t *proof_len,
                const unsigned char *key) {
   urkel_proof_t proof;
-  int write_lock, ret;
+  int hash_lock, ret;
 
   urkel_rwlock_rdlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
 
-  write_lock = (tx->root->type != URKEL_NODE_NULL
-             && tx->root->type != URKEL_NODE_HASH);
+  hash_lock = (tx->root->type != URKEL_NODE_NULL
+            && tx->root->type != URKEL_NODE_HASH);
 
   /* Node hashes may need to be computed. */
-  if (write_lock) {
-    urkel_rwlock_rdunlock(tx->lock);
-    urkel_rwlock_wrlock(tx->lock);
-  }
+  if (hash_lock)
+    urkel_mutex_lock(tx->hash_lock);
 
   urkel_proof_init(&proof);
 
@@ -1064,12 +1054,11 @@ urkel_tx_prove(tree_tx_t *tx,
 
   urkel_proof_clear(&proof);
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
+  if (hash_lock)
+    urkel_mutex_unlock(tx->hash_lock);
 
-  if (write_lock)
-    urkel_rwlock_wrunlock(tx->lock);
-  else
-    urkel_rwlock_rdunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
+  urkel_rwlock_rdunlock(tx->lock);
 
   return ret;
 }
-- 
2.43.0


From 48a390f4694ed3df53d953cba40f3522b50b155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 13/30] fix: keep the transaction's nodes when a commit fails

They were freed or half replaced, and the transaction was left pointing
at them.  Now a failed commit can be repeated.
---
 src/tree.c | 61 ++++++++++++++++++++----------------------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index adaefe1..bc62ab8 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -484,99 +484,82 @@ urkel_tree_prove(tree_db_t *tree,
   }
 }
 
-static urkel_node_t *
+static int
 urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
   switch (node->type) {
     case URKEL_NODE_NULL: {
-      return node;
+      return 1;
     }
 
     case URKEL_NODE_INTERNAL: {
       urkel_internal_t *internal = &node->u.internal;
-      urkel_node_t *left, *right, *out;
-
-      left = urkel_tree_write(tree, internal->left);
 
-      if (left == NULL)
-        return NULL;
-
-      internal->left = left;
-
-      right = urkel_tree_write(tree, internal->right);
+      if (!urkel_tree_write(tree, internal->left))
+        return 0;
 
-      if (right == NULL)
-        return NULL;
+      if (!urkel_tree_write(tree, internal->right))
+        return 0;
 
-      internal->right = right;
+      urkel_node_hash(node);
 
       if (!(node->flags & URKEL_FLAG_WRITTEN)) {
         urkel_store_write_node(tree->store, node);
 
         if (urkel_store_needs_flush(tree->store)) {
           if (!urkel_store_flush(tree->store))
-            return NULL;
+            return 0;
         }
       }
 
-      out = checked_malloc(sizeof(urkel_node_t));
-
-      urkel_node_hash(node);
-      urkel_node_to_hash(node, out);
-      urkel_node_destroy(node, 1);
-
-      return out;
+      return 1;
     }
 
     case URKEL_NODE_LEAF: {
-      urkel_node_t *out;
-
       if (!(node->flags & URKEL_FLAG_WRITTEN)) {
         urkel_store_write_value(tree->store, node);
         urkel_store_write_node(tree->store, node);
 
         if (urkel_store_needs_flush(tree->store)) {
           if (!urkel_store_flush(tree->store))
-            return NULL;
+            return 0;
         }
       }
 
-      out = checked_malloc(sizeof(urkel_node_t));
-
-      urkel_node_hash(node);
-      urkel_node_to_hash(node, out);
-      urkel_node_destroy(node, 1);
-
-      return out;
+      return 1;
     }
 
     case URKEL_NODE_HASH: {
       CHECK(node->flags & URKEL_FLAG_WRITTEN);
-      return node;
+      return 1;
     }
 
     default: {
       urkel_abort(); /* LCOV_EXCL_LINE */
-      return NULL;
+      return 0;
     }
   }
 }
 
 static urkel_node_t *
 urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
-  urkel_node_t *root = urkel_tree_write(tree, node);
+  urkel_node_t *root;
 
-  if (root == NULL) {
-    urkel_node_destroy(node, 1);
+  /* On failure, the nodes remain the caller's. */
+  if (!urkel_tree_write(tree, node)) {
     urkel_errno = URKEL_EBADWRITE;
     return NULL;
   }
 
-  if (!urkel_store_commit(tree->store, root)) {
-    urkel_node_destroy(root, 0);
+  if (!urkel_store_commit(tree->store, node)) {
     urkel_errno = URKEL_EBADWRITE;
     return NULL;
   }
 
+  root = checked_malloc(sizeof(urkel_node_t));
+
+  urkel_node_to_hash(node, root);
+  urkel_node_destroy(node, 1);
+
   memcpy(tree->hash, root->hash, URKEL_HASH_SIZE);
 
   return root;
-- 
2.43.0


From ffb4baf79f4003bc0df3222b750acdd1475ce38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 14/30] fix: make direct inserts and removes atomic

Two concurrent calls both started from the same root, and the second
commit undid the first.
---
 src/tree.c | 76 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index bc62ab8..f588964 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -574,6 +574,47 @@ urkel_tree_head(tree_db_t *tree) {
   return urkel_store_get_root(tree->store);
 }
 
+static int
+urkel_tree_update(tree_db_t *tree,
+                  const unsigned char *key,
+                  const unsigned char *value,
+                  size_t size,
+                  int remove) {
+  urkel_node_t *root, *node;
+  int ret = 0;
+
+  /* Hold the write lock throughout: no
+     commit may come in between. */
+  urkel_rwlock_wrlock(tree->lock);
+
+  root = urkel_tree_head(tree);
+
+  if (root == NULL) {
+    urkel_errno = URKEL_ENOTFOUND;
+    goto fail;
+  }
+
+  if (remove)
+    node = urkel_tree_remove(tree, root, key, 0);
+  else
+    node = urkel_tree_insert(tree, root, key, value, size, 0);
+
+  if (node != NULL) {
+    root = node;
+    node = urkel_tree_commit(tree, root);
+  }
+
+  if (node != NULL) {
+    root = node;
+    ret = 1;
+  }
+
+  urkel_node_destroy(root, 1);
+fail:
+  urkel_rwlock_wrunlock(tree->lock);
+  return ret;
+}
+
 /*
  * Database
  */
@@ -708,42 +749,17 @@ urkel_insert(tree_db_t *tree,
              const unsigned char *key,
              const unsigned char *value,
              size_t size) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
-  int ret = 0;
-
-  if (tx == NULL)
+  if (size > URKEL_VALUE_SIZE) {
+    urkel_errno = URKEL_EINVAL;
     return 0;
+  }
 
-  if (!urkel_tx_insert(tx, key, value, size))
-    goto fail;
-
-  if (!urkel_tx_commit(tx))
-    goto fail;
-
-  ret = 1;
-fail:
-  urkel_tx_destroy(tx);
-  return ret;
+  return urkel_tree_update(tree, key, value, size, 0);
 }
 
 int
 urkel_remove(tree_db_t *tree, const unsigned char *key) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
-  int ret = 0;
-
-  if (tx == NULL)
-    return 0;
-
-  if (!urkel_tx_remove(tx, key))
-    goto fail;
-
-  if (!urkel_tx_commit(tx))
-    goto fail;
-
-  ret = 1;
-fail:
-  urkel_tx_destroy(tx);
-  return ret;
+  return urkel_tree_update(tree, key, NULL, 0, 1);
 }
 
 int
-- 
2.43.0


From 63c80c20b8d9f578f64b8d56b1151eb9862fc1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 15/30] fix: do not abort a removal whose sibling node cannot
 be read

---
 src/tree.c | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f588964..82928b3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -291,6 +291,7 @@ urkel_tree_remove(tree_db_t *tree,
       urkel_internal_t *internal = &node->u.internal;
       urkel_bits_t *prefix = &internal->prefix;
       urkel_node_t *x, *y, *z, *out;
+      urkel_node_t *rx, *side;
       unsigned int bit;
 
       if (!urkel_bits_has(prefix, key, depth)) {
@@ -303,23 +304,48 @@ urkel_tree_remove(tree_db_t *tree,
       bit = urkel_get_bit(key, depth);
       x = urkel_node_get(node, bit ^ 0);
       y = urkel_node_get(node, bit ^ 1);
-      z = urkel_tree_remove(tree, x, key, depth + 1);
+      rx = x;
+      side = y;
 
-      if (z == NULL)
-        return NULL;
+      if (x->type == URKEL_NODE_HASH) {
+        rx = urkel_store_resolve(tree->store, x);
 
-      if (z->type == URKEL_NODE_NULL) {
-        urkel_node_t *side = y;
-        int resolved = 0;
+        if (rx == NULL) {
+          urkel_errno = URKEL_ECORRUPTION;
+          return NULL;
+        }
+      }
 
-        if (side->type == URKEL_NODE_HASH) {
-          side = urkel_store_resolve(tree->store, side);
+      /* The child is about to be replaced by its sibling:
+         make sure we have it before changing anything. */
+      if (rx->type == URKEL_NODE_LEAF
+          && urkel_node_key_equals(rx, key)
+          && y->type == URKEL_NODE_HASH) {
+        side = urkel_store_resolve(tree->store, y);
 
-          CHECK(side != NULL);
+        if (side == NULL) {
+          if (rx != x)
+            urkel_node_destroy(rx, 1);
+
+          urkel_errno = URKEL_ECORRUPTION;
 
-          resolved = 1;
+          return NULL;
         }
+      }
+
+      z = urkel_tree_remove(tree, rx, key, depth + 1);
 
+      if (z == NULL) {
+        if (rx != x)
+          urkel_node_destroy(rx, 1);
+
+        return NULL;
+      }
+
+      if (rx != x)
+        urkel_node_destroy(x, 0);
+
+      if (z->type == URKEL_NODE_NULL) {
         if (side->type == URKEL_NODE_INTERNAL) {
           urkel_internal_t *si = &side->u.internal;
           urkel_bits_t pre;
@@ -335,7 +361,7 @@ urkel_tree_remove(tree_db_t *tree,
 
         urkel_node_destroy(node, 0);
 
-        if (resolved)
+        if (side != y)
           urkel_node_destroy(y, 0);
 
         urkel_node_destroy(z, 0);
-- 
2.43.0


From 48ace83eec9fc05dabc74e64b0e4743d8c6a467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 16/30] fix: report corruption instead of aborting on
 impossible node depths

---
 src/nodes.c |  3 +++
 src/tree.c  | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/nodes.c b/src/nodes.c
index fc2b648..5117e50 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -648,6 +648,9 @@ urkel_node_read(urkel_node_t *node, const unsigned char *data, size_t len) {
           len -= 1;
         }
 
+        if (size > URKEL_KEY_BITS)
+          return 0;
+
         bytes = (size + 7) / 8;
 
         if (len < bytes)
diff --git a/src/tree.c b/src/tree.c
index 82928b3..c4633e3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -102,6 +102,11 @@ urkel_tree_get(tree_db_t *tree,
       urkel_bits_t *prefix = &internal->prefix;
       unsigned int bit;
 
+      if (depth + prefix->size >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return 0;
+      }
+
       if (!urkel_bits_has(prefix, key, depth)) {
         urkel_errno = URKEL_ENOTFOUND;
         return 0;
@@ -177,6 +182,11 @@ urkel_tree_insert(tree_db_t *tree,
       unsigned int bit;
       size_t bits;
 
+      if (depth + prefix->size >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       bits = urkel_bits_count(prefix, key, depth);
 
       depth += bits;
@@ -243,6 +253,11 @@ urkel_tree_insert(tree_db_t *tree,
 
       depth += prefix.size;
 
+      if (depth >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       leaf = urkel_node_create_leaf(key, value, size);
       bit = urkel_get_bit(key, depth);
 
@@ -294,6 +309,11 @@ urkel_tree_remove(tree_db_t *tree,
       urkel_node_t *rx, *side;
       unsigned int bit;
 
+      if (depth + prefix->size >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return NULL;
+      }
+
       if (!urkel_bits_has(prefix, key, depth)) {
         urkel_errno = URKEL_ENOTFOUND;
         return NULL;
@@ -323,6 +343,13 @@ urkel_tree_remove(tree_db_t *tree,
           && y->type == URKEL_NODE_HASH) {
         side = urkel_store_resolve(tree->store, y);
 
+        if (side != NULL
+            && side->type == URKEL_NODE_INTERNAL
+            && depth + 1 + side->u.internal.prefix.size >= URKEL_KEY_BITS) {
+          urkel_node_destroy(side, 1);
+          side = NULL;
+        }
+
         if (side == NULL) {
           if (rx != x)
             urkel_node_destroy(rx, 1);
@@ -433,6 +460,11 @@ urkel_tree_prove(tree_db_t *tree,
       urkel_node_t *x, *y;
       unsigned int bit;
 
+      if (depth + prefix->size >= URKEL_KEY_BITS) {
+        urkel_errno = URKEL_ECORRUPTION;
+        return 0;
+      }
+
       if (!urkel_bits_has(prefix, key, depth)) {
         const unsigned char *left = urkel_node_hash(internal->left);
         const unsigned char *right = urkel_node_hash(internal->right);
@@ -1226,6 +1258,11 @@ urkel_iter_seek(tree_iter_t *iter) {
         if (parent->child >= 1)
           return 1;
 
+        if (depth + ni->prefix.size >= URKEL_KEY_BITS) {
+          urkel_errno = URKEL_ECORRUPTION;
+          return 0;
+        }
+
         parent->child += 1;
 
         if (parent->child)
-- 
2.43.0


From acf56b8056b93806760a338d46da29415c19d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 17/30] fix: do not report a root as not found when its history
 cannot be read

---
 src/store.c | 13 ++++++++++---
 src/tree.c  | 11 ++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/store.c b/src/store.c
index cfb4bd5..c215ab6 100644
--- a/src/store.c
+++ b/src/store.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
+#include <urkel.h>
 #include "bits.h"
 #include "internal.h"
 #include "khash.h"
@@ -864,16 +865,22 @@ urkel_store__read_history(data_store_t *store,
   for (;;) {
     meta_ptr = &store->last_meta.meta_ptr;
 
-    if (meta_ptr->index == 0)
+    if (meta_ptr->index == 0) {
+      urkel_errno = URKEL_ENOTFOUND;
       return 0;
+    }
 
-    if (!urkel_store_read_meta(store, &meta, meta_ptr))
+    if (!urkel_store_read_meta(store, &meta, meta_ptr)) {
+      urkel_errno = URKEL_ECORRUPTION;
       return 0;
+    }
 
     root_ptr = &meta.root_ptr;
 
-    if (!urkel_store_read_root(store, &node, root_ptr))
+    if (!urkel_store_read_root(store, &node, root_ptr)) {
+      urkel_errno = URKEL_ECORRUPTION;
       return 0;
+    }
 
     store->last_meta = meta;
 
diff --git a/src/tree.c b/src/tree.c
index c4633e3..c88c8e5 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -647,10 +647,8 @@ urkel_tree_update(tree_db_t *tree,
 
   root = urkel_tree_head(tree);
 
-  if (root == NULL) {
-    urkel_errno = URKEL_ENOTFOUND;
+  if (root == NULL)
     goto fail;
-  }
 
   if (remove)
     node = urkel_tree_remove(tree, root, key, 0);
@@ -749,10 +747,8 @@ urkel_inject(tree_db_t *tree, const unsigned char *hash) {
 
   urkel_rwlock_wrlock(tree->lock);
 
-  if (!urkel_store_has_history(tree->store, hash)) {
-    urkel_errno = URKEL_ENOTFOUND;
+  if (!urkel_store_has_history(tree->store, hash))
     goto fail;
-  }
 
   memcpy(tree->hash, hash, URKEL_HASH_SIZE);
 
@@ -921,7 +917,6 @@ urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {
   tx->hash_lock = urkel_mutex_create();
 
   if (tx->root == NULL) {
-    urkel_errno = URKEL_ENOTFOUND;
     urkel_mutex_destroy(tx->hash_lock);
     urkel_rwlock_destroy(tx->lock);
     free(tx);
@@ -987,8 +982,6 @@ urkel_tx_inject(tree_tx_t *tx, const unsigned char *hash) {
     urkel_node_destroy(tx->root, 1);
 
     tx->root = root;
-  } else {
-    urkel_errno = URKEL_ENOTFOUND;
   }
 
   urkel_rwlock_rdunlock(tx->tree->lock);
-- 
2.43.0


From 91aba224306dd979f2cc85024df84aed1ce2dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 18/30] fix: undo a failed write to a data file, and survive a
 failed mapping

What a failed write left behind shifted everything written later, and
data was written twice when it could not be mapped afterwards.
---
 src/io.h       |  1 +
 src/io_posix.c | 20 +++++++++++++++-----
 src/store.c    |  2 +-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/io.h b/src/io.h
index ae704ce..c1e37c2 100644
--- a/src/io.h
+++ b/src/io.h
@@ -134,6 +134,7 @@ typedef struct urkel_file_s {
   void *base;
   int mapped;
   char _storage[32];
+  int torn;
 } urkel_file_t;
 
 struct urkel_mutex_s;
diff --git a/src/io_posix.c b/src/io_posix.c
index fd06cb7..6451157 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1103,6 +1103,7 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   file->size = st.st_size;
   file->base = NULL;
   file->mapped = 0;
+  file->torn = 0;
 
 #ifdef HAVE_MMAP
   if ((flags & URKEL_O_MMAP) && sizeof(void *) >= 8) {
@@ -1165,8 +1166,18 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   }
 #endif
 
-  if (!urkel_fs_write(file->fd, src, len))
+  /* Remove what an earlier failed write has left behind. */
+  if (file->torn) {
+    if (!urkel_fs_ftruncate(file->fd, file->size))
+      return 0;
+
+    file->torn = 0;
+  }
+
+  if (!urkel_fs_write(file->fd, src, len)) {
+    file->torn = !urkel_fs_ftruncate(file->fd, file->size);
     return 0;
+  }
 
   file->size += len;
 
@@ -1174,10 +1185,9 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   if (file->mapped) {
     void *base = mmap(NULL, file->size, PROT_READ, MAP_SHARED, file->fd, 0);
 
-    if (base == MAP_FAILED)
-      return 0;
-
-    file->base = base;
+    /* The data is written: fall back to reading. */
+    if (base != MAP_FAILED)
+      file->base = base;
   }
 #endif
 
diff --git a/src/store.c b/src/store.c
index c215ab6..f2bd23c 100644
--- a/src/store.c
+++ b/src/store.c
@@ -113,7 +113,7 @@ typedef struct urkel_store_s {
  * Constants
  */
 
-static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, {0}};
+static urkel_file_t urkel_null_file = {-1, 0, 0, NULL, 0, {0}, 0};
 
 /*
  * Meta Root
-- 
2.43.0


From a7b68a1d7fbbd0f52c6fa0755eb6408753f55568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 19/30] fix: do not delete a data file that merely could not be
 read

---
 src/store.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index f2bd23c..9864f12 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1032,13 +1032,14 @@ urkel_store_find_meta(const data_store_t *store,
                       const char *path,
                       unsigned char *slab) {
   urkel_stat_t st;
-  int ret = 0;
+  int ret = -1;
   int fd;
 
+  /* Returns -1 if the file could not be read. */
   fd = urkel_fs_open(path, URKEL_O_RDWR | URKEL_O_RANDOM, 0);
 
   if (fd == -1)
-    return 0;
+    return -1;
 
   if (!urkel_fs_fstat(fd, &st))
     goto done;
@@ -1069,6 +1070,7 @@ urkel_store_find_meta(const data_store_t *store,
     }
   }
 
+  ret = 0;
 done:
   urkel_fs_close(fd);
   return ret;
@@ -1082,6 +1084,7 @@ urkel_store_recover_state(const data_store_t *store,
   unsigned char *slab = checked_malloc(SLAB_SIZE);
   char path[URKEL_PATH_MAX + 1];
   uint64_t off;
+  int found;
   int ret = 0;
 
   urkel_meta_init(state);
@@ -1090,7 +1093,12 @@ urkel_store_recover_state(const data_store_t *store,
   while (*index >= 1) {
     urkel_store_path_index(store, path, *index);
 
-    if (urkel_store_find_meta(store, meta, &off, path, slab)) {
+    found = urkel_store_find_meta(store, meta, &off, path, slab);
+
+    if (found == -1)
+      goto fail;
+
+    if (found) {
       *state = *meta;
       state->meta_ptr.index = *index;
       state->meta_ptr.pos = off;
-- 
2.43.0


From b8082f51690c54a661e102812ca20f4abcc32370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 20/30] fix: take the lock before touching the key and data
 files

---
 src/store.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/store.c b/src/store.c
index 9864f12..e977004 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1130,21 +1130,21 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_init_meta(store))
+  /* Nothing may be read or written before we hold the lock. */
+  if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_find_index(store, &index))
-    return 0;
+  if (!urkel_store_init_meta(store))
+    goto fail;
 
-  if (!urkel_store_init_lock(store))
-    return 0;
+  if (!urkel_store_find_index(store, &index))
+    goto fail;
 
   if (!urkel_store_recover_state(store,
                                  &store->state,
                                  &store->last_meta,
                                  &index)) {
-    urkel_fs_close_lock(store->lock_fd);
-    return 0;
+    goto fail;
   }
 
   urkel_slab_init(&store->slab);
@@ -1171,6 +1171,9 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   }
 
   return 1;
+fail:
+  urkel_fs_close_lock(store->lock_fd);
+  return 0;
 }
 
 static void
-- 
2.43.0


From fab952a073f94b2dc6dc091f80503aa695ac3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 21/30] fix: remove the lock file only while holding the lock

It was removed after the lock was released, so it could be another
process's by then, and a third could then lock a new one.
---
 src/io.c    | 27 ++++++++++++++++++++++++++-
 src/io.h    |  2 +-
 src/store.c | 10 +++++-----
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0741548..868a660 100644
--- a/src/io.c
+++ b/src/io.c
@@ -56,6 +56,9 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode) {
   int flags = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
   int fd = urkel_fs_open(name, flags, mode);
+#if !defined(_WIN32)
+  urkel_stat_t x, y;
+#endif
 
   if (fd == -1)
     return -1;
@@ -65,11 +68,33 @@ urkel_fs_open_lock(const char *name, uint32_t mode) {
     return -1;
   }
 
+#if !defined(_WIN32)
+  /* The previous holder may have removed the file
+     before we locked it: the lock is void then. */
+  if (!urkel_fs_fstat(fd, &x)
+      || !urkel_fs_stat(name, &y)
+      || x.st_dev != y.st_dev
+      || x.st_ino != y.st_ino) {
+    urkel_fs_close(fd);
+    return -1;
+  }
+#endif
+
   return fd;
 }
 
 void
-urkel_fs_close_lock(int fd) {
+urkel_fs_close_lock(int fd, const char *name) {
+#if !defined(_WIN32)
+  /* Must be removed while the lock is
+     held: it may be someone else's later. */
+  urkel_fs_unlink(name);
+#endif
+
   urkel_fs_flock(fd, URKEL_LOCK_UN);
   urkel_fs_close(fd);
+
+#if defined(_WIN32)
+  urkel_fs_unlink(name);
+#endif
 }
diff --git a/src/io.h b/src/io.h
index c1e37c2..27f2c88 100644
--- a/src/io.h
+++ b/src/io.h
@@ -321,6 +321,6 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode);
 
 void
-urkel_fs_close_lock(int fd);
+urkel_fs_close_lock(int fd, const char *name);
 
 #endif /* URKEL_IO_H_ */
diff --git a/src/store.c b/src/store.c
index e977004..696f6de 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1125,6 +1125,7 @@ urkel_store_clear(data_store_t *store);
 
 static int
 urkel_store_init(data_store_t *store, const char *prefix) {
+  char path[URKEL_PATH_MAX + 1];
   uint32_t index;
 
   if (!urkel_store_init_prefix(store, prefix))
@@ -1172,7 +1173,8 @@ urkel_store_init(data_store_t *store, const char *prefix) {
 
   return 1;
 fail:
-  urkel_fs_close_lock(store->lock_fd);
+  urkel_store_path(store, path, "lock");
+  urkel_fs_close_lock(store->lock_fd, path);
   return 0;
 }
 
@@ -1187,8 +1189,7 @@ urkel_store_clear(data_store_t *store) {
   urkel_cache_clear(&store->cache);
   urkel_mutex_destroy(store->lock);
   urkel_rng_clear(&store->rng);
-  urkel_fs_close_lock(store->lock_fd);
-  urkel_fs_unlink(path);
+  urkel_fs_close_lock(store->lock_fd, path);
 
   memset(store, 0, sizeof(*store));
 }
@@ -1261,8 +1262,7 @@ fail:
   if (fd != -1) {
     memcpy(path + path_len, "lock", 5);
 
-    urkel_fs_close_lock(fd);
-    urkel_fs_unlink(path);
+    urkel_fs_close_lock(fd, path);
   }
 
   if (ret)
-- 
2.43.0


From 1414752a54af4b6eedb677e1a59a96c14607ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 22/30] fix: create the key again when creating it was
 interrupted

A crash or a full disk in between left a short key file, which made the
database impossible to open.  And never replace the key of existing data.
---
 src/store.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/store.c b/src/store.c
index 696f6de..a347322 100644
--- a/src/store.c
+++ b/src/store.c
@@ -966,13 +966,20 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 }
 
 static int
-urkel_store_init_meta(data_store_t *store) {
+urkel_store_init_meta(data_store_t *store, uint32_t index) {
   char path[URKEL_PATH_MAX + 1];
 
   urkel_store_path(store, path, "meta");
 
-  if (urkel_fs_exists(path))
-    return urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE);
+  if (urkel_fs_exists(path)) {
+    if (urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE))
+      return 1;
+  }
+
+  /* There is no data before the key is
+     written, and the data depends on it. */
+  if (index != 0)
+    return 0;
 
   urkel_random_bytes(store->key, URKEL_HASH_SIZE);
 
@@ -1135,10 +1142,10 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_lock(store))
     return 0;
 
-  if (!urkel_store_init_meta(store))
+  if (!urkel_store_find_index(store, &index))
     goto fail;
 
-  if (!urkel_store_find_index(store, &index))
+  if (!urkel_store_init_meta(store, index))
     goto fail;
 
   if (!urkel_store_recover_state(store,
-- 
2.43.0


From 1f977be361ccf08e6e0d6e59dabfe43d7e1defd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 23/30] fix: forget the pointers of an invalid commit record

---
 src/store.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/store.c b/src/store.c
index a347322..bbc5736 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1118,6 +1118,9 @@ urkel_store_recover_state(const data_store_t *store,
     *index -= 1;
   }
 
+  /* Forget what an invalid record said. */
+  urkel_meta_init(meta);
+
   *index = 1;
 
 succeed:
-- 
2.43.0


From a21a4e56d9a57ef785cf40643f0063394681c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 24/30] fix: take the lock of the tree before that of a
 transaction

---
 src/tree.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index c88c8e5..08a9326 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -36,7 +36,7 @@ typedef struct urkel_s {
 typedef struct urkel_tx_s {
   tree_db_t *tree;
   urkel_node_t *root;
-  urkel_rwlock_t *lock;
+  urkel_rwlock_t *lock; /* Taken after the lock of the tree. */
   urkel_mutex_t *hash_lock; /* Guards the lazily computed hashes. */
 } tree_tx_t;
 
@@ -943,8 +943,8 @@ void
 urkel_tx_clear(tree_tx_t *tx) {
   urkel_node_t *root;
 
-  urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tx->lock);
 
   root = urkel_tree_head(tx->tree);
 
@@ -954,8 +954,8 @@ urkel_tx_clear(tree_tx_t *tx) {
     tx->root = root;
   }
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
 }
 
 void
@@ -973,8 +973,8 @@ int
 urkel_tx_inject(tree_tx_t *tx, const unsigned char *hash) {
   urkel_node_t *root;
 
-  urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tx->lock);
 
   root = urkel_store_get_history(tx->tree->store, hash);
 
@@ -984,8 +984,8 @@ urkel_tx_inject(tree_tx_t *tx, const unsigned char *hash) {
     tx->root = root;
   }
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
 
   return root != NULL;
 }
@@ -997,16 +997,16 @@ urkel_tx_get(tree_tx_t *tx,
              const unsigned char *key) {
   int ret;
 
-  urkel_rwlock_rdlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_rdlock(tx->lock);
 
   ret = urkel_tree_get(tx->tree, value, size, tx->root, key, 0);
 
   if (!ret)
     *size = 0;
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_rdunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
 
   return ret;
 }
@@ -1015,13 +1015,13 @@ int
 urkel_tx_has(tree_tx_t *tx, const unsigned char *key) {
   int ret;
 
-  urkel_rwlock_rdlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_rdlock(tx->lock);
 
   ret = urkel_tree_get(tx->tree, NULL, NULL, tx->root, key, 0);
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_rdunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
 
   return ret;
 }
@@ -1038,16 +1038,16 @@ urkel_tx_insert(tree_tx_t *tx,
     return 0;
   }
 
-  urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tx->lock);
 
   root = urkel_tree_insert(tx->tree, tx->root, key, value, size, 0);
 
   if (root != NULL)
     tx->root = root;
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
 
   return root != NULL || urkel_errno == URKEL_ENOUPDATE;
 }
@@ -1056,16 +1056,16 @@ int
 urkel_tx_remove(tree_tx_t *tx, const unsigned char *key) {
   urkel_node_t *root;
 
-  urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tx->lock);
 
   root = urkel_tree_remove(tx->tree, tx->root, key, 0);
 
   if (root != NULL)
     tx->root = root;
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
 
   return root != NULL;
 }
@@ -1078,8 +1078,8 @@ urkel_tx_prove(tree_tx_t *tx,
   urkel_proof_t proof;
   int hash_lock, ret;
 
-  urkel_rwlock_rdlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_rdlock(tx->lock);
 
   hash_lock = (tx->root->type != URKEL_NODE_NULL
             && tx->root->type != URKEL_NODE_HASH);
@@ -1107,8 +1107,8 @@ urkel_tx_prove(tree_tx_t *tx,
   if (hash_lock)
     urkel_mutex_unlock(tx->hash_lock);
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_rdunlock(tx->lock);
+  urkel_rwlock_rdunlock(tx->tree->lock);
 
   return ret;
 }
@@ -1117,16 +1117,16 @@ int
 urkel_tx_commit(tree_tx_t *tx) {
   urkel_node_t *root;
 
-  urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_wrlock(tx->tree->lock);
+  urkel_rwlock_wrlock(tx->lock);
 
   root = urkel_tree_commit(tx->tree, tx->root);
 
   if (root != NULL)
     tx->root = root;
 
-  urkel_rwlock_wrunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
+  urkel_rwlock_wrunlock(tx->tree->lock);
 
   return root != NULL;
 }
@@ -1139,8 +1139,8 @@ tree_iter_t *
 urkel_iter_create(tree_tx_t *tx) {
   tree_iter_t *iter = checked_malloc(sizeof(tree_iter_t));
 
-  urkel_rwlock_rdlock(tx->lock);
   urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_rdlock(tx->lock);
 
   iter->tree = tx->tree;
   iter->tx = tx;
@@ -1167,8 +1167,8 @@ urkel_iter_destroy(tree_iter_t *iter) {
       urkel_node_destroy(state->node, 1);
   }
 
-  urkel_rwlock_rdunlock(iter->tree->lock);
   urkel_rwlock_rdunlock(iter->tx->lock);
+  urkel_rwlock_rdunlock(iter->tree->lock);
 
   if (iter->transient)
     urkel_tx_destroy(iter->tx);
-- 
2.43.0


From c1d24de6b58bebfcc8376e60f1641a12f965c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 25/30] fix: history records that do not lead backwards are
 corrupt

Looking up a root followed the previous-commit pointers without end when
they formed a cycle, as they can after data files were swapped or copied
over one another.
---
 src/store.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/store.c b/src/store.c
index bbc5736..1d84738 100644
--- a/src/store.c
+++ b/src/store.c
@@ -875,6 +875,14 @@ urkel_store__read_history(data_store_t *store,
       return 0;
     }
 
+    /* The history only ever leads backwards. */
+    if (meta.meta_ptr.index > meta_ptr->index
+        || (meta.meta_ptr.index == meta_ptr->index
+            && meta.meta_ptr.pos >= meta_ptr->pos)) {
+      urkel_errno = URKEL_ECORRUPTION;
+      return 0;
+    }
+
     root_ptr = &meta.root_ptr;
 
     if (!urkel_store_read_root(store, &node, root_ptr)) {
-- 
2.43.0


From eb5e339785d5375c7e045da2ccb2f2859efff96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 26/30] build: compile as gnu90, which accepts // comments

Strict C90 rejects // comments outright, so a comment-only edit in that style
breaks the build. The language is otherwise unchanged (C90, -pedantic).
---
 CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 3f7cf37..defd184 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -78,7 +78,7 @@ set(urkel_cflags)
 set(urkel_ldflags)
 
 set(CMAKE_C_STANDARD_REQUIRED ON)
-set(CMAKE_C_EXTENSIONS OFF)
+set(CMAKE_C_EXTENSIONS ON)
 set(CMAKE_C_STANDARD 90)
 
 if(NOT URKEL_WASM)
-- 
2.43.0


From 8be4c7b31611715e4b73404ce32356a335726fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:58 +0000
Subject: [PATCH 27/30] fix: fill the whole buffer with random bytes under
 Emscripten

Every chunk was copied to the start of the buffer, so that all but the
first 14 bytes of a database's key were uninitialized memory.
---
 src/io_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index 6451157..acccf47 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1393,7 +1393,7 @@ urkel_sys_random(void *dst, size_t size) {
     uuid[6] = uuid[14];
     uuid[8] = uuid[15];
 
-    memcpy(dst, uuid, max);
+    memcpy(data, uuid, max);
 
     data += max;
     size -= max;
-- 
2.43.0


From d18c2112089c67b1588beb0fe621ff264d992f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 28/30] fix: stop reading at the end of a file on Windows

ReadFile succeeds with no bytes there: opening a database with a key
file cut short never returned.
---
 src/io_win.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io_win.c b/src/io_win.c
index a6dae62..3214218 100644
--- a/src/io_win.c
+++ b/src/io_win.c
@@ -532,6 +532,9 @@ urkel_fs_read(int fd, void *dst, size_t len) {
     if (!ReadFile(handle, raw, len, &nread, NULL))
       break;
 
+    if (nread == 0)
+      break;
+
     if ((size_t)nread > len)
       abort();
 
@@ -593,6 +596,9 @@ urkel_fs_pread(int fd, void *dst, size_t len, int64_t pos) {
     if (!ReadFile(handle, raw, len, &nread, &ol))
       break;
 
+    if (nread == 0)
+      break;
+
     if ((size_t)nread > len)
       abort();
 
-- 
2.43.0


From 96cd060b0ca6815e81347cb5ef3420b989c742a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 29/30] fix: undo a failed write to a data file on Windows, and
 survive a failed mapping

As 91aba22 does elsewhere: what a failed write left behind shifted
everything written later.
---
 src/io_win.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/io_win.c b/src/io_win.c
index 3214218..0c1479c 100644
--- a/src/io_win.c
+++ b/src/io_win.c
@@ -728,7 +728,9 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   HANDLE handle;
   int fd;
 
-  fd = urkel_fs_open(name, flags, mode);
+  /* We write at explicit offsets: a handle
+     for appending cannot truncate the file. */
+  fd = urkel_fs_open(name, flags & ~URKEL_O_APPEND, mode);
 
   if (fd == -1)
     return NULL;
@@ -758,6 +760,7 @@ urkel_file_open(const char *name, int flags, uint32_t mode) {
   file->size = len.QuadPart;
   file->base = NULL;
   file->mapped = 0;
+  file->torn = 0;
 
   memset(file->_storage, 0, sizeof(file->_storage));
 
@@ -844,14 +847,23 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
     if (!UnmapViewOfFile(file->base))
       return 0;
 
-    if (!CloseHandle(mapping))
+    file->base = NULL;
+
+    CloseHandle(mapping);
+  }
+
+  /* Remove what an earlier failed write has left behind. */
+  if (file->torn) {
+    if (!urkel_fs_ftruncate(file->fd, file->size))
       return 0;
 
-    file->base = NULL;
+    file->torn = 0;
   }
 
-  if (!urkel_fs_write(file->fd, src, len))
+  if (!urkel_fs_pwrite(file->fd, src, len, file->size)) {
+    file->torn = !urkel_fs_ftruncate(file->fd, file->size);
     return 0;
+  }
 
   file->size += len;
 
@@ -860,19 +872,20 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
     HANDLE mapping;
     void *base;
 
+    /* The data is written: fall back to reading. */
     if (handle == INVALID_HANDLE_VALUE)
-      return 0;
+      return 1;
 
     mapping = CreateFileMappingA(handle, NULL, PAGE_READONLY, 0, 0, NULL);
 
-    if (mapping == INVALID_HANDLE_VALUE)
-      return 0;
+    if (mapping == NULL)
+      return 1;
 
     base = MapViewOfFile(mapping, FILE_MAP_READ, 0, 0, 0);
 
     if (base == NULL) {
       CloseHandle(mapping);
-      return 0;
+      return 1;
     }
 
     file->base = base;
-- 
2.43.0


From 0ab0449bf560ab00fde57ffdfcfdcb035aac9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:12 +0000
Subject: [PATCH 30/30] fix: remove the lock file only while holding the lock
 on Windows, too

As fab952a does elsewhere.  Where a removed file's name is free at once
(Windows 10 and later), removing it after the lock was given up could
remove the lock of another process, and let a third one in.
---
 src/io.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/io.c b/src/io.c
index 868a660..211631c 100644
--- a/src/io.c
+++ b/src/io.c
@@ -56,9 +56,7 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode) {
   int flags = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
   int fd = urkel_fs_open(name, flags, mode);
-#if !defined(_WIN32)
   urkel_stat_t x, y;
-#endif
 
   if (fd == -1)
     return -1;
@@ -68,7 +66,6 @@ urkel_fs_open_lock(const char *name, uint32_t mode) {
     return -1;
   }
 
-#if !defined(_WIN32)
   /* The previous holder may have removed the file
      before we locked it: the lock is void then. */
   if (!urkel_fs_fstat(fd, &x)
@@ -78,23 +75,15 @@ urkel_fs_open_lock(const char *name, uint32_t mode) {
     urkel_fs_close(fd);
     return -1;
   }
-#endif
 
   return fd;
 }
 
 void
 urkel_fs_close_lock(int fd, const char *name) {
-#if !defined(_WIN32)
   /* Must be removed while the lock is
      held: it may be someone else's later. */
   urkel_fs_unlink(name);
-#endif
-
   urkel_fs_flock(fd, URKEL_LOCK_UN);
   urkel_fs_close(fd);
-
-#if defined(_WIN32)
-  urkel_fs_unlink(name);
-#endif
 }
-- 
2.43.0

