From 192ed93016a648c2f6aafecae74a714e2ec5982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:32 +0000
Subject: [PATCH 01/40] fix: do not free a cache twice when its construction
 failed

---
 src/cache.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cache.c b/src/cache.c
index 5a999cc..ceb876a 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -42,7 +42,11 @@ sqfs_err sqfs_cache_init(sqfs_cache *cache, size_t size, size_t count,
 	if (cache->idxs && cache->buf)
 		return SQFS_OK;
 	
-	sqfs_cache_destroy(cache);
+	/* the mutex stays valid until sqfs_cache_destroy() */
+	free(cache->buf);
+	free(cache->idxs);
+	cache->buf = NULL;
+	cache->idxs = NULL;
 	return SQFS_ERR;
 }
 
@@ -62,6 +66,8 @@ void sqfs_cache_destroy(sqfs_cache *cache) {
 	}
 	free(cache->buf);
 	free(cache->idxs);
+	cache->buf = NULL;
+	cache->idxs = NULL;
 }
 
 void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx) {
-- 
2.43.0


From 22fc20a9c34172f01fc5debcce6fa842e3ae7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:32 +0000
Subject: [PATCH 02/40] fix: keep no trace in the cache of a block that failed
 to load

---
 src/fs.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d51ea26..d5ec058 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -183,11 +183,16 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
-		entry = sqfs_cache_add(&fs->md_cache, *pos);
-		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
+		sqfs_block *loaded;
+		size_t data_size;
+		/* claim a slot only for a block that could be loaded */
+		ret = sqfs_md_block_read(fs, *pos, &data_size, &loaded);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(&fs->md_cache, *pos);
+		entry->block = loaded;
+		entry->data_size = data_size;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
@@ -205,11 +210,14 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
-		entry = sqfs_cache_add(cache, pos);
-		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
+		sqfs_block *loaded;
+		/* claim a slot only for a block that could be loaded */
+		ret = sqfs_data_block_read(fs, pos, hdr, &loaded);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(cache, pos);
+		entry->block = loaded;
 	}
 	*block = entry->block;
 	ret = SQFS_OK;
-- 
2.43.0


From c7a3ee1e469f932d6d176426fe9c567b33689c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:33 +0000
Subject: [PATCH 03/40] fix: never let an empty cache slot match a requested
 key

---
 src/file.c | 4 ++--
 src/fs.c   | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index d680b5f..24a4b7b 100644
--- a/src/file.c
+++ b/src/file.c
@@ -266,7 +266,7 @@ static sqfs_err sqfs_blockidx_add(sqfs *fs, sqfs_inode *inode,
 		}
 	}
 
-	idx = inode->base.inode_number + 1; /* zero means invalid */
+	idx = (sqfs_cache_idx)inode->base.inode_number + 1; /* zero means invalid */
 	cachep = sqfs_cache_add(&fs->blockidx, idx);
 	*out = *cachep = blockidx;
 	return SQFS_OK;
@@ -301,7 +301,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 	}
 	
 	/* Get the index, creating it if necessary */
-	idx = inode->base.inode_number + 1; /* zero means invalid index */
+	idx = (sqfs_cache_idx)inode->base.inode_number + 1; /* zero means invalid index */
 	if ((bp = sqfs_cache_get(&fs->blockidx, idx))) {
 		blockidx = *bp;
 	} else {
diff --git a/src/fs.c b/src/fs.c
index d5ec058..43bb98b 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -179,6 +179,8 @@ sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
 	sqfs_err ret;
+	if (*pos == SQFS_CACHE_IDX_INVALID)
+		return SQFS_ERR; /* the superblock is there, never a block */
 	MUTEX_LOCK(&fs->md_cache.mutex);
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
@@ -206,6 +208,8 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		uint32_t hdr, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
 	sqfs_err ret;
+	if (pos == SQFS_CACHE_IDX_INVALID)
+		return SQFS_ERR; /* the superblock is there, never a block */
 	MUTEX_LOCK(&cache->mutex);
 
 	entry = sqfs_cache_get(cache, pos);
-- 
2.43.0


From e1eab073015f86cc2f96630061a460c0c0a08515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:33 +0000
Subject: [PATCH 04/40] fix: do not index past the block index for a fragment
 position

---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 24a4b7b..c23ea66 100644
--- a/src/file.c
+++ b/src/file.c
@@ -282,7 +282,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From e9b1d25082ba3e549f86ea73ff6d1b5599f19c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 05/40] fix: reading nothing or past the end of a file yields
 zero bytes

---
 src/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index c23ea66..3573c88 100644
--- a/src/file.c
+++ b/src/file.c
@@ -122,9 +122,9 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start > file_size)
+	if (*size < 0 || start < 0)
 		return SQFS_ERR;
-	if (start == file_size) {
+	if (*size == 0 || start >= file_size) {
 		*size = 0;
 		return SQFS_OK;
 	}
-- 
2.43.0


From acd1066d7ee9c5eb3c140a04b4ac2034a2b5d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 06/40] fix: report an unsupported compression method instead
 of aborting

---
 src/decompress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..70be2ed 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -25,8 +25,8 @@
 #include "squash/decompress.h"
 #include "squash/squashfs_fs.h"
 
+#include <stddef.h>
 #include <zlib.h>
-#include <assert.h>
 
 static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 		void *out, size_t *outsz) {
@@ -39,6 +39,7 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type)
+		return NULL;
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From 125419ecb19b516794f06be9e077711149724bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:35 +0000
Subject: [PATCH 07/40] fix: write nothing into a link buffer of size zero

---
 src/fs.c       | 2 ++
 src/readlink.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index 43bb98b..822649b 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -299,6 +299,8 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 		return SQFS_OK;
 	}
 
+	if (*size == 0)
+		return SQFS_ERR;
 	if (want > *size - 1)
 		want = *size - 1;
 	cur = inode->next;
diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..076f2a3 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From cb66d73960784ab323677fd42586cc1063a32837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:35 +0000
Subject: [PATCH 08/40] fix: reject recorded names longer than the name buffer

---
 src/dir.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dir.c b/src/dir.c
index e9842af..e5bca34 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -144,6 +144,10 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	entry->type = e.type;
 	entry->name_size = e.size + 1;
+	if (entry->name_size > SQUASHFS_NAME_LEN) {
+		*err = SQFS_ERR;
+		return 0;
+	}
 	entry->inode = ((uint64_t)dir->header.start_block << 16) + e.offset;
 	/* e.inode_number is signed */
 	entry->inode_number = dir->header.inode_number + (int16_t)e.inode_number;
@@ -234,6 +238,8 @@ static sqfs_err sqfs_dir_ff_name_f(sqfs *fs, sqfs_md_cursor *cur,
 	size_t name_size = index->size + 1;
 	int order;
 
+	if (name_size > SQUASHFS_NAME_LEN)
+		return SQFS_ERR;
 	if ((err = sqfs_md_read(fs, cur, args->name, name_size)))
 		return err;
 	args->name[name_size] = '\0';
-- 
2.43.0


From 3d43654f59382096da8924cef80ce5a89028a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:36 +0000
Subject: [PATCH 09/40] fix: initialise a traversal stack completely

---
 src/stack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..a2a6a42 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,8 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->capacity = s->size = 0;
+	s->freer = NULL;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From 6d9c202b16643854b7ab180c0af1aa884e96c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:36 +0000
Subject: [PATCH 10/40] fix: make a traversal that failed to open safe to close

---
 src/traverse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/traverse.c b/src/traverse.c
index 012d98b..26905f2 100644
--- a/src/traverse.c
+++ b/src/traverse.c
@@ -118,6 +118,7 @@ sqfs_err sqfs_traverse_open(sqfs_traverse *trv, sqfs *fs, sqfs_inode_id iid) {
 	sqfs_err err;
 	sqfs_inode inode;
 	
+	sqfs_traverse_init(trv); /* safe to close whatever happens */
 	if ((err = sqfs_inode_get(fs, &inode, iid)))
 		return err;
 	
-- 
2.43.0


From 7fc74a566f85d0f3e549756473591a305b296843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:37 +0000
Subject: [PATCH 11/40] fix: keep a hash intact when it cannot grow

---
 src/hash.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..f943976 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -43,28 +43,28 @@ static sqfs_err sqfs_hash_add_internal(sqfs_hash *h, int doubling,
 }
 
 static sqfs_err sqfs_hash_double(sqfs_hash *h) {
-	sqfs_hash_bucket **ob = h->buckets;
-	size_t oc = h->capacity;
+	sqfs_hash bigger;
 	size_t i;
 	sqfs_err err;
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
+	if ((err = sqfs_hash_init(&bigger, h->value_size, h->capacity * 2)))
 		return err;
 	
-	for (i = 0; i < oc; ++i) {
-		sqfs_hash_bucket *b = ob[i];
+	for (i = 0; i < h->capacity; ++i) {
+		sqfs_hash_bucket *b = h->buckets[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			size_t hash = (b->key & (bigger.capacity - 1));
+			b->next = bigger.buckets[hash];
+			bigger.buckets[hash] = b;
+			++bigger.size;
 			b = n;
 		}
 	}
 	
-	free(ob);
-	return err;
+	free(h->buckets);
+	*h = bigger;
+	return SQFS_OK;
 }
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
-- 
2.43.0


From b7cee8ecc7e7416520bdff26cd01e6549bf72dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:02 +0000
Subject: [PATCH 12/40] fix: give everything back when squash_open fails

---
 src/fd.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index e564c8a..f4d7726 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -17,9 +17,11 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	sqfs_err error;
 	struct squash_file *file = calloc(1, sizeof(struct squash_file));
 	short found;
-	int fd;
+	int fd = -1;
 	size_t nr;
 	int *handle;
+	int reason;
+	struct squash_file **fds;
 
 	// try locating the file and fetching its stat
 	if (NULL == file)
@@ -37,13 +39,17 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	{
 		goto failure;
 	}
-	file->filename = strdup(path);
-
 	if (!found)
 	{
 		errno = ENOENT;
 		goto failure;
 	}
+	file->filename = strdup(path);
+	if (NULL == file->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	error = sqfs_stat(fs, &file->node, &file->st);
 	if (SQFS_OK != error)
 	{
@@ -66,13 +72,15 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
-						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		fds = realloc(squash_global_fdtable.fds,
+			      nr * sizeof(struct squash_file *));
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
+		squash_global_fdtable.fds = fds;
 		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
@@ -103,7 +111,13 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	reason = errno;
+	if (-1 != fd) {
+		close(fd);
+	}
+	free(file->filename);
 	free(file);
+	errno = reason;
 	return -1;
 }
 
-- 
2.43.0


From 152b3eba2659d48bc97169213303102afbc93c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 13/40] fix: report the reason of this failure, not of an
 earlier one

---
 src/dirent.c   | 1 +
 src/fd.c       | 2 ++
 src/readlink.c | 1 +
 src/scandir.c  | 4 +++-
 src/stat.c     | 2 ++
 5 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dirent.c b/src/dirent.c
index a379069..f3232c3 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -41,6 +41,7 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 
 	dir->actual_nr = 0;
 	dir->loc = 0;
+	errno = 0;
 	error = sqfs_inode_get(fs, &dir->node, sqfs_inode_root(fs));
 	if (SQFS_OK != error)
 	{
diff --git a/src/fd.c b/src/fd.c
index f4d7726..63f9671 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -29,6 +29,7 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		errno = ENOMEM;
 		return -1;
 	}
+	errno = 0;
 	error = sqfs_inode_get(fs, &file->node, sqfs_inode_root(fs));
 	if (SQFS_OK != error)
 	{
@@ -170,6 +171,7 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
+	errno = 0;
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
diff --git a/src/readlink.c b/src/readlink.c
index 076f2a3..4767e42 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -63,6 +63,7 @@ ssize_t squash_readlink(sqfs *fs, const char *path, char *buf, size_t bufsize) {
 
     found = 0;
 
+    errno = 0;
     error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
     if (SQFS_OK != error)
     	goto failure;
diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..537ee08 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -21,8 +21,10 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	struct SQUASH_DIRENT **list = NULL;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
 
-	if((dirname == NULL) || (namelist == NULL))
+	if((dirname == NULL) || (namelist == NULL)) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	openeddir = squash_opendir(fs, dirname);
 	if(openeddir == NULL)
diff --git a/src/stat.c b/src/stat.c
index 121f575..fc5c053 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -14,6 +14,7 @@ int squash_stat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_inode node;
 	short found;
 	
+	errno = 0;
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
@@ -45,6 +46,7 @@ int squash_lstat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_inode node;
 	short found;
 
+	errno = 0;
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
-- 
2.43.0


From 836a0eb07aa8eae215432e69091bb25ac66fb999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 14/40] fix: fail an impossible seek without moving the
 position

---
 src/fd.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index 63f9671..9b31cc1 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -196,6 +196,7 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
+	off_t pos;
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
@@ -204,18 +205,27 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		pos = offset;
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		pos = file->pos + offset;
 	}
-	else if (SQUASH_SEEK_END == whence)
+	else if (SQUASH_SEEK_END == whence && S_ISREG(file->node.base.mode))
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		pos = file->node.xtra.reg.file_size;
 	}
-	return file->pos;
+	else
+	{
+		pos = -1;
+	}
+	if (pos < 0)
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	file->pos = pos;
+	return pos;
 }
 
 static void squash_halt()
-- 
2.43.0


From da5fc972469e94b6ebe3cfd768188a0601fe2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 15/40] fix: look at the table of open handles only while its
 lock is held

---
 include/squash.h         |  6 ++++--
 sample/enclose_io_unix.c |  8 +++-----
 src/dirent.c             |  3 +--
 src/fd.c                 | 28 +++++++++++++++++++++-------
 src/stat.c               |  5 +++--
 5 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 2794c27..f44a65e 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -49,8 +49,8 @@
 #define SQUASH_SEEK_CUR 1 /* set file offset to current plus offset */
 #define SQUASH_SEEK_END 2 /* set file offset to EOF plus offset */
 
-#define SQUASH_VALID_VFD(vfd) ((vfd) < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[(vfd)])
-#define SQUASH_VFD_FILE(vfd) (squash_global_fdtable.fds[(vfd)])
+#define SQUASH_VALID_VFD(vfd) (NULL != squash_vfd_file(vfd))
+#define SQUASH_VFD_FILE(vfd) (squash_vfd_file(vfd))
 
 extern sqfs_err squash_errno;
 
@@ -58,6 +58,8 @@ sqfs_err squash_start();
 ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize);
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node);
 struct squash_file * squash_find_entry(void *ptr);
+/* The open file of a virtual file descriptor, or NULL if it is not open. */
+struct squash_file * squash_vfd_file(int vfd);
 
 /*
  * Obtains information about the file pointed to by path of a SquashFS fs.
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..9f01d7f 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -428,13 +428,12 @@ DIR * enclose_io_fdopendir(int fd)
 	struct squash_file *file;
 	sqfs *fs;
 
-	if (!SQUASH_VALID_VFD(fd))
+	file = SQUASH_VFD_FILE(fd);
+	if (NULL == file)
 	{
 		return fdopendir(fd);
 	}
 
-	file = squash_global_fdtable.fds[fd];
-
 	dir = calloc(1, sizeof(SQUASH_DIR));
 
 	if (NULL == dir)
@@ -474,9 +473,8 @@ DIR * enclose_io_fdopendir(int fd)
 		goto failure;
 	}
 	
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
 	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
 	free(handle);
 	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
diff --git a/src/dirent.c b/src/dirent.c
index f3232c3..1cb4e92 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -32,9 +32,8 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	{
 		goto failure;
 	}
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
 	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
 	free(handle);
 	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
diff --git a/src/fd.c b/src/fd.c
index 9b31cc1..428285c 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -132,15 +132,18 @@ int squash_close(int vfd)
 	int ret;
 	struct squash_file *file;
 
-        if (!SQUASH_VALID_VFD(vfd)) {
+        MUTEX_LOCK(&squash_global_mutex);
+        if (vfd < 0 || vfd >= squash_global_fdtable.nr ||
+            NULL == squash_global_fdtable.fds[vfd]) {
+                MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
         }
         ret = close(vfd);
 	if (-1 == ret) {
+                MUTEX_UNLOCK(&squash_global_mutex);
 		return -1;
 	}
-        MUTEX_LOCK(&squash_global_mutex);
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
@@ -172,12 +175,12 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	struct squash_file *file;
 
 	errno = 0;
-	if (!SQUASH_VALID_VFD(vfd))
+	file = squash_vfd_file(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		goto failure;
 	}
-	file = squash_global_fdtable.fds[vfd];
 
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
@@ -197,12 +200,12 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
 	off_t pos;
-	if (!SQUASH_VALID_VFD(vfd))
+	file = squash_vfd_file(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
 		pos = offset;
@@ -264,4 +267,15 @@ struct squash_file * squash_find_entry(void *ptr)
 	}
 	MUTEX_UNLOCK(&squash_global_mutex);
 	return ret;
-}
\ No newline at end of file
+}
+
+struct squash_file * squash_vfd_file(int vfd)
+{
+	struct squash_file * ret = NULL;
+	MUTEX_LOCK(&squash_global_mutex);
+	if (vfd >= 0 && vfd < squash_global_fdtable.nr) {
+		ret = squash_global_fdtable.fds[vfd];
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return ret;
+}
diff --git a/src/stat.c b/src/stat.c
index fc5c053..e189bf6 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -74,11 +74,12 @@ failure:
 
 int squash_fstat(int vfd, struct stat *buf)
 {
-	if (!SQUASH_VALID_VFD(vfd))
+	struct squash_file *file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	*buf = SQUASH_VFD_FILE(vfd)->st;
+	*buf = file->st;
 	return 0;
 }
-- 
2.43.0


From fd0fed0f698a0d07aeee02835ef5e889ea89c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 16/40] fix: start with an empty table of open handles

---
 src/fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fd.c b/src/fd.c
index 428285c..5c126c6 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -244,6 +244,7 @@ sqfs_err squash_start()
 {
 	int ret;
 	squash_global_fdtable.nr = 0;
+	squash_global_fdtable.end = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
 	ret = atexit(squash_halt);
-- 
2.43.0


From 8ea1f7f646b708e0bb65dcda1ab912707e64c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 17/40] fix: give everything back when squash_opendir fails

---
 src/dirent.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/dirent.c b/src/dirent.c
index 1cb4e92..98a7143 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -17,6 +17,7 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	short found;
 	SQUASH_DIR *dir = calloc(1, sizeof(SQUASH_DIR));
 	int *handle;
+	int reason;
 	
 	if (NULL == dir)
 	{
@@ -26,7 +27,13 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	dir->fs = fs;
 	dir->entries = NULL;
 	dir->nr = 0;
+	dir->fd = -1;
 	dir->filename = strdup(filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = squash_open(fs, filename);
 	if (-1 == dir->fd)
 	{
@@ -66,7 +73,16 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
-	free(dir);
+	reason = errno;
+	free(dir->filename);
+	dir->filename = NULL;
+	if (-1 == dir->fd) {
+		free(dir);
+	} else {
+		// dir itself will be freed by squash_close as `payload`
+		squash_close(dir->fd);
+	}
+	errno = reason;
 	return NULL;
 }
 
-- 
2.43.0


From a55e8d5382169ed1fc606992321449352fdc554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 18/40] fix: keep the entries of a directory stream valid when
 it cannot grow

---
 src/dirent.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index 98a7143..7a977c2 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -115,22 +115,27 @@ int squash_closedir(SQUASH_DIR *dirp)
 struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 {
 	sqfs_err error;
-	size_t nr = dirp->loc + 1;
-	if (dirp->nr < nr) {
-		// we secretly extend the requested size
-		// in order to minimize the number of realloc calls
-		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
-		{
-			errno = ENOMEM;
-			return NULL;
-		}
-		dirp->nr = nr;
+	if (dirp->loc < 0)
+	{
+		errno = EINVAL;
+		return NULL;
 	}
 
-	while (dirp->actual_nr < dirp->loc + 1)
+	while (dirp->actual_nr <= dirp->loc)
 	{
+		if (dirp->nr <= dirp->actual_nr) {
+			// we secretly extend the requested size
+			// in order to minimize the number of realloc calls
+			size_t nr = ((size_t)dirp->actual_nr + 1) * 10;
+			void *entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+			if (NULL == entries)
+			{
+				errno = ENOMEM;
+				return NULL;
+			}
+			dirp->entries = entries;
+			dirp->nr = nr;
+		}
 		sqfs_dentry_init(&dirp->entries[dirp->actual_nr].entry,
 			dirp->entries[dirp->actual_nr].name);
 		dirp->entries[dirp->actual_nr].not_eof = sqfs_dir_next(
-- 
2.43.0


From 8795561328452e384dd330daffdf4cd9c96596c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 19/40] fix: tell a failed readdir from the end of the
 directory

---
 src/dirent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dirent.c b/src/dirent.c
index 7a977c2..eb6ee52 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -145,6 +145,7 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			&error);
 		if (SQFS_OK != error)
 		{
+			errno = EIO;
 			return NULL;
 		}
 		else if (!dirp->entries[dirp->actual_nr].not_eof)
-- 
2.43.0


From 515598ac311361ac119da727e64784ce57ae5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 20/40] fix: leave room for the terminator of a directory
 entry's name

---
 src/dirent.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index eb6ee52..5fdee08 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -162,8 +162,8 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			if (SQUASHFS_NAME_LEN < minsize) {
 				minsize = SQUASHFS_NAME_LEN;
 			}
-			if (sizeof(sysentry->d_name) < minsize) {
-				minsize = sizeof(sysentry->d_name);
+			if (sizeof(sysentry->d_name) - 1 < minsize) {
+				minsize = sizeof(sysentry->d_name) - 1;
 			}
 			memcpy(sysentry->d_name, dirp->entries[dirp->actual_nr].name, minsize);
 #ifndef __linux__
-- 
2.43.0


From fcde6cfc12b346b241108592214a18b9b7800a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 21/40] fix: scandir returns every selected entry or fails and
 leaves nothing

---
 src/scandir.c | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 537ee08..c0892fb 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -17,7 +17,8 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	int (*compar)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))
 {
 	SQUASH_DIR * openeddir = 0;
-	size_t n = 0;
+	size_t n = 0, capacity = MAX_DIR_ENT;
+	int reason;
 	struct SQUASH_DIRENT **list = NULL;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
 
@@ -31,33 +32,44 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 		return -1;
 
 
-	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
+	list = (struct SQUASH_DIRENT **)malloc(capacity*sizeof(struct SQUASH_DIRENT *));
+	if(list == NULL)
+		goto failure;
 
-
-	while(( ent = squash_readdir(openeddir)) != NULL)
+	while(1)
 	{
+		errno = 0;
+		ent = squash_readdir(openeddir);
+		if(ent == NULL) {
+			if(errno)
+				goto failure;
+			break;
+		}
 		if( select && !select(ent))
 			continue;
 
+		if(n >= capacity) {
+			struct SQUASH_DIRENT **more = (struct SQUASH_DIRENT **)realloc((void *)list,
+				2*capacity*sizeof(struct SQUASH_DIRENT *));
+			if(more == NULL)
+				goto failure;
+			list = more;
+			capacity *= 2;
+		}
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+			goto failure;
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
 	}
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
-	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
-	if(*namelist == NULL)
-		*namelist = list;
-
+	*namelist = list;
 
 	//sort the array
 	if(compar)
@@ -65,4 +77,12 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 
 	return n;
 
-}
\ No newline at end of file
+failure:
+	reason = errno;
+	while(n > 0)
+		free(list[--n]);
+	free(list);
+	squash_closedir(openeddir);
+	errno = reason;
+	return -1;
+}
-- 
2.43.0


From 7aed194f9c22be654ac4c08de2ae4a775def1322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 22/40] fix: survive running out of memory for the temporary
 directory's name

---
 src/extract.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..f0832fb 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -113,6 +113,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
-- 
2.43.0


From 06ae2e96378b63c1a1f22a4beab12c0e2ba26f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 23/40] fix: close what extraction opened and remove a file it
 could not complete

---
 src/extract.c | 65 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index f0832fb..6816136 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -148,12 +148,21 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 }
 #endif // _WIN32
 
+static void squash_remove_tmpf(SQUASH_OS_PATH tmpf)
+{
+#ifdef _WIN32
+	DeleteFileW(tmpf);
+#else
+	unlink(tmpf);
+#endif
+}
+
 static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
-	FILE *fp;
-	int fd;
-	SQUASH_OS_PATH tmpf;
+	FILE *fp = NULL;
+	int fd, ret, reason, created = 0;
+	SQUASH_OS_PATH tmpf = NULL;
 	size_t size;
 	ssize_t ssize;
 	char buffer[16 * 1024];
@@ -164,15 +173,21 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (-1 == fd) {
 		return NULL;
 	}
+	file = SQUASH_VFD_FILE(fd);
+	if (NULL == file || !S_ISREG(file->node.base.mode)) {
+		errno = EINVAL;
+		goto failure;
+	}
+	errno = 0;
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
-		return NULL;
+		goto failure;
 	}
 	tmpf = squash_tmpf(tmpdir, ext_name);
 	if (NULL == tmpf) {
-		return NULL;
+		goto failure;
 	}
 #ifdef _WIN32
 	fp = _wfopen(tmpf, L"wb");
@@ -180,29 +195,43 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	fp = fopen(tmpf, "wb");
 #endif
 	if (NULL == fp) {
-		free(tmpf);
-		return NULL;
+		goto failure;
 	}
-	file = SQUASH_VFD_FILE(fd);
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 	}
 	assert(0 == offset);
-	fclose(fp);
+	ret = fclose(fp);
+	fp = NULL;
+	created = 1;
+	if (0 != ret) {
+		goto failure;
+	}
+	squash_close(fd);
 	return tmpf;
+
+failure:
+	reason = errno;
+	if (NULL != fp) {
+		fclose(fp);
+		created = 1;
+	}
+	if (created) {
+		squash_remove_tmpf(tmpf);
+	}
+	free((void *)tmpf);
+	squash_close(fd);
+	errno = reason ? reason : EIO;
+	return NULL;
 }
 
 struct SquashExtractEntry {
@@ -258,11 +287,7 @@ void squash_extract_clear_cache()
 {
 	struct SquashExtractEntry* ptr = squash_extract_cache;
 	while (NULL != ptr) {
-#ifdef _WIN32
-		DeleteFileW(ptr->ret);
-#else
-		unlink(ptr->ret);
-#endif
+		squash_remove_tmpf(ptr->ret);
 		ptr = ptr->next;
 	}
 }
-- 
2.43.0


From dbe16f369100ac21960fb896cc77dd227e62eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 24/40] fix: remember an extracted file under a copy of its
 path, or not at all

---
 src/extract.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 6816136..cda0edd 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -236,7 +236,7 @@ failure:
 
 struct SquashExtractEntry {
 	sqfs *fs;
-	const char *path;
+	char *path;
 	SQUASH_OS_PATH ret;
 	struct SquashExtractEntry *next;
 };
@@ -254,17 +254,22 @@ static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, cons
 	}
 	return ptr;
 }
-static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+static sqfs_err squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
 {
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return;
+		return SQFS_ERR;
 	}
 	ptr->fs = fs;
-	ptr->path = path;
+	ptr->path = strdup(path);
+	if (NULL == ptr->path) {
+		free(ptr);
+		return SQFS_ERR;
+	}
 	ptr->ret = ret;
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
+	return SQFS_OK;
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
@@ -278,7 +283,12 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
 	if (NULL != ret) {
-		squash_extract_cache_insert(fs, path, ret);
+		if (SQFS_OK != squash_extract_cache_insert(fs, path, ret)) {
+			squash_remove_tmpf(ret);
+			free((void *)ret);
+			errno = ENOMEM;
+			return NULL;
+		}
 	}
 	return ret;
 }
-- 
2.43.0


From f40af9c07e65ce4a80d73601d0458f62b5e60386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 25/40] fix: share the record of extracted files between
 threads under a lock

---
 src/extract.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index cda0edd..721683b 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -162,6 +162,7 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	static SQUASH_OS_PATH tmpdir = NULL;
 	FILE *fp = NULL;
 	int fd, ret, reason, created = 0;
+	SQUASH_OS_PATH dir;
 	SQUASH_OS_PATH tmpf = NULL;
 	size_t size;
 	ssize_t ssize;
@@ -179,13 +180,16 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 		goto failure;
 	}
 	errno = 0;
+	MUTEX_LOCK(&squash_global_mutex);
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
-	if (NULL == tmpdir) {
+	dir = tmpdir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	if (NULL == dir) {
 		goto failure;
 	}
-	tmpf = squash_tmpf(tmpdir, ext_name);
+	tmpf = squash_tmpf(dir, ext_name);
 	if (NULL == tmpf) {
 		goto failure;
 	}
@@ -275,20 +279,38 @@ static sqfs_err squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_O
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	SQUASH_OS_PATH ret;
-	static struct SquashExtractEntry* found;
+	SQUASH_OS_PATH known = NULL;
+	const struct SquashExtractEntry* found;
+	sqfs_err error = SQFS_OK;
 
+	MUTEX_LOCK(&squash_global_mutex);
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
-		return found->ret;
+		known = found->ret;
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	if (NULL != known) {
+		return known;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL != ret) {
-		if (SQFS_OK != squash_extract_cache_insert(fs, path, ret)) {
-			squash_remove_tmpf(ret);
-			free((void *)ret);
+	if (NULL == ret) {
+		return NULL;
+	}
+	MUTEX_LOCK(&squash_global_mutex);
+	found = squash_extract_cache_find(fs, path);
+	if (NULL != found) {
+		known = found->ret; // extracted by another thread meanwhile
+	} else {
+		error = squash_extract_cache_insert(fs, path, ret);
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	if (NULL != known || SQFS_OK != error) {
+		squash_remove_tmpf(ret);
+		free((void *)ret);
+		if (SQFS_OK != error) {
 			errno = ENOMEM;
-			return NULL;
 		}
+		return known;
 	}
 	return ret;
 }
-- 
2.43.0


From 213b62fe3f68c97b1eb5f46e76b573892bec1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 26/40] fix: keep link resolution inside its path buffers

---
 src/dir.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e5bca34..c15eb26 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -321,8 +321,8 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 
 	sqfs_err error;
 	short found;
-	char base_path[SQUASHFS_PATH_LEN];
-	char new_path[SQUASHFS_PATH_LEN];
+	sqfs_path base_path;
+	sqfs_path new_path;
 	int inode_num;
 
 	if(strlen(path) > SQUASHFS_PATH_LEN){
@@ -330,10 +330,10 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 		return SQFS_ERR;
 	}
 
-	strncpy(base_path, path, SQUASHFS_PATH_LEN);
+	strcpy(base_path, path);
 	inode_num = 0;
 	do {
-		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
+		sqfs_path buf_link;
 		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
 		if (link_length > 0) {
 			if (buf_link[0] == '/') { // is Absolute Path
@@ -343,7 +343,7 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 					return error;
 				}
 				error = sqfs_lookup_path(fs, node, buf_link, &found);
-				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
+				strcpy(new_path, buf_link);
 				if (SQFS_OK != error) {
 					return error;
 				} else if (!found) {
@@ -351,13 +351,19 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 					return SQFS_ERR;
 				}
 			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
+				size_t pos = strlen(base_path);
 				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
+				while (pos > 0 && base_path[pos - 1] != '/') {
+					--pos;
+				}
+				if (link_length > SQUASHFS_PATH_LEN - pos) {
+					errno = ENAMETOOLONG;
+					return SQFS_ERR;
+				}
 
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
+				memcpy(new_path, base_path, pos);
+				memcpy(new_path + pos, buf_link, link_length);
+				new_path[pos + link_length] = '\0';
 				
 				error = clear_dot_dot(new_path);
 				if (SQFS_OK != error) {
@@ -384,7 +390,7 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 				errno = ELOOP;
 				return SQFS_ERR;
 			}
-			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
+			strcpy(base_path, new_path);
 
 		} else {
 			return SQFS_ERR;
-- 
2.43.0


From 67163e46265de1f84e305b9c3a69db1c7df9be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 27/40] fix: bound how deeply and how often link resolution
 nests

---
 include/squash/squashfs_fs.h |  1 +
 src/dir.c                    | 43 +++++++++++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/squash/squashfs_fs.h b/include/squash/squashfs_fs.h
index fda6666..2a2ac91 100644
--- a/include/squash/squashfs_fs.h
+++ b/include/squash/squashfs_fs.h
@@ -63,6 +63,7 @@
 #define SQUASHFS_NAME_LEN		256
 #define SQUASHFS_PATH_LEN		2048
 #define SQUASHFS_MAX_LINK_LEVEL	32
+#define SQUASHFS_MAX_LINK_TOTAL	4096
 #define SQUASHFS_INVALID_FRAG		(0xffffffffU)
 #define SQUASHFS_INVALID_XATTR		(0xffffffffU)
 #define SQUASHFS_INVALID_BLK		((int64_t)-1)
diff --git a/src/dir.c b/src/dir.c
index c15eb26..62d6ed8 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -317,7 +317,15 @@ static sqfs_err clear_dot_dot(char *path)
 	return SQFS_OK;
 }
 
-sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
+/* Following a link takes a lookup, which may have to follow further links:
+   'depth' is how deeply such lookups are nested, and '*total' counts all the
+   links followed. Both are limited. */
+static sqfs_err sqfs_lookup_path_depth(sqfs *fs, sqfs_inode *inode,
+		const char *incoming_path, short *found, short follow_link,
+		int depth, int *total);
+
+static sqfs_err squash_follow_link_depth(sqfs *fs, const char *path,
+		sqfs_inode *node, int depth, int *total) {
 
 	sqfs_err error;
 	short found;
@@ -330,10 +338,19 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 		return SQFS_ERR;
 	}
 
+	if (depth >= SQUASHFS_MAX_LINK_LEVEL) {
+		errno = ELOOP;
+		return SQFS_ERR;
+	}
+
 	strcpy(base_path, path);
 	inode_num = 0;
 	do {
 		sqfs_path buf_link;
+		if (++*total > SQUASHFS_MAX_LINK_TOTAL) {
+			errno = ELOOP;
+			return SQFS_ERR;
+		}
 		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
 		if (link_length > 0) {
 			if (buf_link[0] == '/') { // is Absolute Path
@@ -342,7 +359,8 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 				if (SQFS_OK != error) {
 					return error;
 				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
+				error = sqfs_lookup_path_depth(fs, node, buf_link, &found, 0,
+					depth + 1, total);
 				strcpy(new_path, buf_link);
 				if (SQFS_OK != error) {
 					return error;
@@ -376,7 +394,8 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 				if (SQFS_OK != error) {
 					return error;
 				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
+				error = sqfs_lookup_path_depth(fs, node, new_path, &found, 0,
+					depth + 1, total);
 				if (SQFS_OK != error) {
 					return error;
 				} else if (!found) {
@@ -402,8 +421,14 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 	return SQFS_OK;
 }
 
-sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incoming_path,
-		short *found, short follow_link) {
+sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
+	int total = 0;
+	return squash_follow_link_depth(fs, path, node, 0, &total);
+}
+
+static sqfs_err sqfs_lookup_path_depth(sqfs *fs, sqfs_inode *inode,
+		const char *incoming_path, short *found, short follow_link,
+		int depth, int *total) {
 	sqfs_err err, ret;
 	sqfs_name buf;
 	sqfs_path path_here;
@@ -477,7 +502,7 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 				}
 				memcpy(path_here, path0, size_here);
 				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
+				err = squash_follow_link_depth(fs, path_here, inode, depth, total);
 				if (SQFS_OK != err) {
 					ret = err;
 					goto exit;
@@ -493,6 +518,12 @@ exit:
 	return ret;
 }
 
+sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *path,
+		short *found, short follow_link) {
+	int total = 0;
+	return sqfs_lookup_path_depth(fs, inode, path, found, follow_link, 0, &total);
+}
+
 sqfs_err sqfs_lookup_path(sqfs *fs, sqfs_inode *inode, const char *path,
 		short *found) {
 	return sqfs_lookup_path_inner(fs, inode, path, found, 0);
-- 
2.43.0


From b944353731e1e11fc68998eaaa1a7741155a9734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 28/40] fix: release the global lock when the sample has no
 working directory

---
 sample/enclose_io_unix.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9f01d7f..8ec40b2 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -93,7 +93,7 @@ static char * enclose_io_mkdir_workdir()
 			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 #ifdef _WIN32
 			mkdir_workdir = malloc(MAX_PATH * 3);
@@ -101,28 +101,28 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if (mkdir(mkdir_workdir)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 #else
 			mkdir_workdir = generic_mkdir_workdir;
@@ -130,16 +130,17 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 #endif
 		}
+out:
 		MUTEX_UNLOCK(&squash_global_mutex);
 	}
 	return mkdir_workdir;
-- 
2.43.0


From 2e556546a0fc5f6ef9e363a92804d5839c3afa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 29/40] fix: pass the caller's mode to access in the sample

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 8ec40b2..802ae19 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -639,14 +639,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 84bfbecffda836e8d28f7f10871b08f9ea2758e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 30/40] fix: forward openat's arguments to open under open's
 count in the sample

---
 sample/enclose_io_unix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 802ae19..55898ad 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1258,7 +1258,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1266,7 +1266,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1281,7 +1281,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1289,7 +1289,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From 845250fc11b44b45d1293f4a62b1bf5e14b27d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 31/40] fix: restore the position after a failing pread in the
 sample

---
 sample/enclose_io_unix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 55898ad..b6c405f 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -581,6 +581,7 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 	if (SQUASH_VALID_VFD(d)) {
 		off_t lseek_off, backup_off;
 		ssize_t read_ssize;
+		int reason;
 		backup_off = squash_lseek(d, 0, SQUASH_SEEK_CUR);
 		if (-1 == backup_off) {
 			return -1;
@@ -590,11 +591,10 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 			return -1;
 		}
 		read_ssize = squash_read(d, buf, nbyte);
-		if (-1 == read_ssize) {
-			return -1;
-		}
+		reason = errno;
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
 		assert(backup_off == lseek_off);
+		errno = reason;
 		return read_ssize;
 	} else {
 		return pread(d, buf, nbyte, offset);
-- 
2.43.0


From 82479d59df84906c00e7570c3f0d21042fc6ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 32/40] fix: do not truncate positions and counts in the sample

---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..a477dc6 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -142,7 +142,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		} while (0)
 
 int enclose_io_exepath(char* buffer, size_t* size);
-int enclose_io_dos_return(int statement);
+int64_t enclose_io_dos_return(int64_t statement);
 short enclose_io_if(const char* path);
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name);
 void enclose_io_chdir_helper(const char *path);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b6c405f..0d1aa65 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -655,9 +655,9 @@ int enclose_io_access(const char *path, int mode)
 
 #endif // !_WIN32
 
-int enclose_io_dos_return(int statement) {
+int64_t enclose_io_dos_return(int64_t statement) {
 #ifdef _WIN32
-	int ret = (statement);
+	int64_t ret = (statement);
 	if (-1 == ret) {
 		ENCLOSE_IO_SET_LAST_ERROR;
 		return ret;
-- 
2.43.0


From 7d803a85ff98dc06815d1db8d4fbfd786428ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 33/40] fix: fail dlopen when extraction failed, and remove the
 whole work directory

---
 sample/enclose_io_unix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 0d1aa65..670f84c 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -73,6 +73,7 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 	} else {
 		unlink(arg1);
 	}
+	return 0;
 }
 #endif
 
@@ -625,7 +626,11 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 
 void* enclose_io_dlopen(const char* path, int mode)
 {
-    return dlopen(enclose_io_ifextract(path, NULL), mode);
+    const char *extracted = enclose_io_ifextract(path, NULL);
+    if (NULL == extracted && NULL != path) {
+        return NULL;
+    }
+    return dlopen(extracted, mode);
 }
 
 int enclose_io_access(const char *path, int mode)
-- 
2.43.0


From 990d65543a52ede192bf6dd88e803ba39878ac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 34/40] fix: free the name when fdopendir fails in the sample

---
 sample/enclose_io_unix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 670f84c..799e62b 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -450,6 +450,11 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -486,6 +491,7 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From bdf2dc47748e7d1d490609482139489d342b7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 35/40] fix: report a block that cannot be decompressed as an
 I/O error, not as a missing path

---
 src/fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fs.c b/src/fs.c
index 822649b..3d69878 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -27,6 +27,7 @@
 #include "squash/file.h"
 
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -129,6 +130,7 @@ sqfs_err sqfs_block_read(sqfs *fs, sqfs_off_t pos, short compressed,
 		err = fs->decompressor((*block)->data, size, decomp, &outsize);
 		if (err) {
 			free(decomp);
+			errno = EIO;
 			goto error;
 		}
 		(*block)->data = decomp;
-- 
2.43.0


From 4d68d090cde3e6ef0b817a5bba9373df8d3f3b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 36/40] fix: report recorded link counts above INT_MAX at their
 recorded value

---
 include/squash/fs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/squash/fs.h b/include/squash/fs.h
index 9c3c699..a916708 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -51,7 +51,7 @@ struct sqfs {
 
 struct sqfs_inode {
 	struct squashfs_base_inode base;
-	int nlink;
+	uint32_t nlink;
 	
 	sqfs_md_cursor next;
 	
-- 
2.43.0


From 277d81d9265eb37a4826bdf84525f39b1d92c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 37/40] fix: sample chdir with a relative path in a virtual
 working directory left it for the operating system

---
 sample/enclose_io_unix.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 799e62b..0154611 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -724,6 +724,15 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
+#ifndef _WIN32
+	if (enclose_io_cwd[0] && '/' != *path) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	}
+#endif // !_WIN32
 	if (enclose_io_is_path(path)) {
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
-- 
2.43.0


From 459e006b6dcdc20d67cd1dd502827af292d8eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 38/40] fix: sample dlopen(NULL) dereferenced the null path

---
 sample/enclose_io_unix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 0154611..aedea3e 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -693,6 +693,9 @@ short enclose_io_if(const char* path)
 
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name)
 {
+    if (NULL == path) {
+        return NULL;
+    }
     if (enclose_io_cwd[0] && '/' != *path) {
         sqfs_path enclose_io_expanded;
         size_t enclose_io_cwd_len;
-- 
2.43.0


From 5659d7f028f8fdc5885bf5ca194625157d53c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 39/40] fix: let a dot-dot undo the component before it

In "/d//../f", "/d/e/./.." and the like the dot-dot removed only the empty
component or the dot in front of it, and in a path that does not begin with
a slash, "d/../f", it made the whole path be not found.
---
 src/dir.c | 54 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 62d6ed8..8182179 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -281,6 +281,30 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 	return err;
 }
 
+/* Where the component that a dot-dot undoes begins, given the slash in front of
+   the dot-dot. Empty components and dots in between do not count. */
+static char *before_dot_dot(char *path, char *slash)
+{
+	char *start, *end = slash;
+
+	for (;;) {
+		while (end > path && '/' == end[-1]) {
+			--end;
+		}
+		start = end;
+		while (start > path && '/' != start[-1]) {
+			--start;
+		}
+		if (start == end || (end - start == 2 && 0 == strncmp(start, "..", 2))) {
+			return NULL;
+		}
+		if (!(end - start == 1 && '.' == *start)) {
+			return start;
+		}
+		end = start;
+	}
+}
+
 static sqfs_err clear_dot_dot(char *path)
 {
 	char *dot_dot, *dot_dot_left;
@@ -288,30 +312,18 @@ static sqfs_err clear_dot_dot(char *path)
 	// we might get a path like /a/b/../../c/d
 	// in which case we need to interpret dot-dot's
 	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
+		dot_dot_left = before_dot_dot(path, dot_dot);
+		if (NULL == dot_dot_left) {
+			return SQFS_ERR;
+		}
+		memmove(dot_dot_left, dot_dot + 4, strlen(dot_dot + 4) + 1);
 	}
 	// what about /a/b/c/d/..
 	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
+		dot_dot_left = before_dot_dot(path, path + strlen(path) - 3);
+		if (NULL == dot_dot_left) {
+			return SQFS_ERR;
+		}
 		*dot_dot_left = '\0';
 	}
 	return SQFS_OK;
-- 
2.43.0


From c3d6c651cb292ab185ef8443b6107bff7bd3a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 40/40] fix: resolve a further link relative to the directory
 that holds it

A link to "x/", or to "/x/y/..", that leads to another link x was followed
relative to "x/" or "/x/y/" instead of the directory x is in.
---
 src/dir.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dir.c b/src/dir.c
index 8182179..9699e00 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -380,8 +380,18 @@ static sqfs_err squash_follow_link_depth(sqfs *fs, const char *path,
 					errno = ENOENT;
 					return SQFS_ERR;
 				}
+				// so that a further link is relative to where it is
+				error = clear_dot_dot(new_path);
+				if (SQFS_OK != error) {
+					errno = ENOENT;
+					return SQFS_ERR;
+				}
 			} else { // is Relative Path
 				size_t pos = strlen(base_path);
+				// the link might have been named "/a/b/cb/"
+				while (pos > 0 && base_path[pos - 1] == '/') {
+					--pos;
+				}
 				// find the last /  "/a/b/cb"
 				while (pos > 0 && base_path[pos - 1] != '/') {
 					--pos;
-- 
2.43.0

