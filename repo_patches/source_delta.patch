From 3b73b0c18b9ccd4a85c62cf932c30e7070a48ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:32 +0000
Subject: [PATCH 01/38] fix: do not leave a failed block read in the block
 caches

A block that could not be decoded (or allocated) was entered in the cache
before it was read, so the next access used a null or stale block.
---
 src/fs.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d51ea26..58cb8cf 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -178,16 +178,21 @@ sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
+	sqfs_block *fresh;
+	size_t data_size;
 	sqfs_err ret;
 	MUTEX_LOCK(&fs->md_cache.mutex);
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
-		entry = sqfs_cache_add(&fs->md_cache, *pos);
-		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
+		/* only a block that could be read may enter the cache */
+		ret = sqfs_md_block_read(fs, *pos, &data_size, &fresh);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(&fs->md_cache, *pos);
+		entry->data_size = data_size;
+		entry->block = fresh;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
@@ -200,16 +205,19 @@ exit:
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		uint32_t hdr, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
+	sqfs_block *fresh;
 	sqfs_err ret;
 	MUTEX_LOCK(&cache->mutex);
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
-		entry = sqfs_cache_add(cache, pos);
-		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
+		/* only a block that could be read may enter the cache */
+		ret = sqfs_data_block_read(fs, pos, hdr, &fresh);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(cache, pos);
+		entry->block = fresh;
 	}
 	*block = entry->block;
 	ret = SQFS_OK;
-- 
2.43.0


From 02170d8bed2a66df65ec86ea04b73b3153094214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 02/38] fix: keep the cache locked while a cached block is in
 use

Another reader could evict and free the block between the look-up and the copy.
---
 include/squash/file.h |  1 +
 include/squash/fs.h   |  3 ++-
 src/file.c            | 16 +++++++++++++---
 src/fs.c              | 13 +++++++------
 src/table.c           |  6 +++++-
 5 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/include/squash/file.h b/include/squash/file.h
index eafd8ed..5221f8c 100644
--- a/include/squash/file.h
+++ b/include/squash/file.h
@@ -34,6 +34,7 @@
 sqfs_err sqfs_frag_entry(sqfs *fs, struct squashfs_fragment_entry *frag,
 	uint32_t idx);
 
+/* The caller holds the mutex of the fragment cache while it uses the block */
 sqfs_err sqfs_frag_block(sqfs *fs, sqfs_inode *inode,
 	size_t *offset, size_t *size, sqfs_block **block);
 
diff --git a/include/squash/fs.h b/include/squash/fs.h
index 9c3c699..77d5134 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -103,7 +103,8 @@ sqfs_err sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size,
 sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 	sqfs_block **block);
 
-/* Don't dispose after getting block, it's in the cache */
+/* Don't dispose after getting block, it's in the cache: the caller holds the
+   mutex of that cache for as long as it uses the block */
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block);
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	uint32_t hdr, sqfs_block **block);
diff --git a/src/file.c b/src/file.c
index d680b5f..ee3827e 100644
--- a/src/file.c
+++ b/src/file.c
@@ -137,6 +137,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	buf_orig = buf;
 	while (*size > 0) {
 		sqfs_block *block = NULL;
+		sqfs_cache *cache = NULL; /* locked for as long as block is in use */
 		size_t data_off, data_size;
 		size_t take;
 		
@@ -144,9 +145,13 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (fragment) { /* fragment */
 			if (inode->xtra.reg.frag_idx == SQUASHFS_INVALID_FRAG)
 				break;
+			cache = &fs->frag_cache;
+			MUTEX_LOCK(&cache->mutex);
 			err = sqfs_frag_block(fs, inode, &data_off, &data_size, &block);
-			if (err)
+			if (err) {
+				MUTEX_UNLOCK(&cache->mutex);
 				return err;
+			}
 		} else {			
 			if ((err = sqfs_blocklist_next(&bl)))
 				return err;
@@ -159,10 +164,14 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 				if (data_size > block_size)
 					data_size = block_size;
 			} else {
-				err = sqfs_data_cache(fs, &fs->data_cache, bl.block,
+				cache = &fs->data_cache;
+				MUTEX_LOCK(&cache->mutex);
+				err = sqfs_data_cache(fs, cache, bl.block,
 					bl.header, &block);
-				if (err)
+				if (err) {
+					MUTEX_UNLOCK(&cache->mutex);
 					return err;
+				}
 				data_size = block->size;
 			}
 		}
@@ -173,6 +182,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (block) {
 			memcpy(buf, (char*)block->data + data_off + read_off, take);
 			/* BLOCK CACHED, DON'T DISPOSE */
+			MUTEX_UNLOCK(&cache->mutex);
 		} else {
 			memset(buf, 0, take);
 		}
diff --git a/src/fs.c b/src/fs.c
index 58cb8cf..417ea16 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -181,7 +181,6 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	sqfs_block *fresh;
 	size_t data_size;
 	sqfs_err ret;
-	MUTEX_LOCK(&fs->md_cache.mutex);
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
@@ -198,7 +197,6 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	*pos += entry->data_size;
 	ret = SQFS_OK;
 exit:
-	MUTEX_UNLOCK(&fs->md_cache.mutex);
 	return ret;
 }
 
@@ -207,7 +205,6 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	sqfs_block_cache_entry *entry;
 	sqfs_block *fresh;
 	sqfs_err ret;
-	MUTEX_LOCK(&cache->mutex);
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
@@ -222,7 +219,6 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	*block = entry->block;
 	ret = SQFS_OK;
 exit:
-	MUTEX_UNLOCK(&cache->mutex);
 	return ret;
 }
 
@@ -243,9 +239,13 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 	while (size > 0) {
 		sqfs_block *block;
 		size_t take;
-		sqfs_err err = sqfs_md_cache(fs, &pos, &block);
-		if (err)
+		sqfs_err err;
+		MUTEX_LOCK(&fs->md_cache.mutex);
+		err = sqfs_md_cache(fs, &pos, &block);
+		if (err) {
+			MUTEX_UNLOCK(&fs->md_cache.mutex);
 			return err;
+		}
 		
 		take = block->size - cur->offset;
 		if (take > size)
@@ -262,6 +262,7 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 			cur->block = pos;
 			cur->offset = 0;
 		}
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 	}
 	return SQFS_OK;
 }
diff --git a/src/table.c b/src/table.c
index e4fbd5c..7db3767 100644
--- a/src/table.c
+++ b/src/table.c
@@ -57,10 +57,14 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 		off = pos % SQUASHFS_METADATA_SIZE;
 	
 	sqfs_off_t bpos = table->blocks[bnum];
-	if (sqfs_md_cache(fs, &bpos, &block))
+	MUTEX_LOCK(&fs->md_cache.mutex);
+	if (sqfs_md_cache(fs, &bpos, &block)) {
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 		return SQFS_ERR;
+	}
 	
 	memcpy(buf, (char*)(block->data) + off, table->each);
+	MUTEX_UNLOCK(&fs->md_cache.mutex);
 	/* BLOCK CACHED, DON'T DISPOSE */
 	return SQFS_OK;
 }
-- 
2.43.0


From 5278f9fc4c7627a449414202606fe4012458990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 03/38] fix: squash_open releases everything it took when it
 fails

A failed open leaked its file name and descriptor; when the descriptor table
could not grow it also lost the table and returned with the lock held.
---
 src/fd.c | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index e564c8a..9b95ee8 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -17,9 +17,10 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	sqfs_err error;
 	struct squash_file *file = calloc(1, sizeof(struct squash_file));
 	short found;
-	int fd;
+	int fd = -1;
 	size_t nr;
 	int *handle;
+	struct squash_file **fds;
 
 	// try locating the file and fetching its stat
 	if (NULL == file)
@@ -37,13 +38,17 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	{
 		goto failure;
 	}
-	file->filename = strdup(path);
-
 	if (!found)
 	{
 		errno = ENOENT;
 		goto failure;
 	}
+	file->filename = strdup(path);
+	if (NULL == file->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	error = sqfs_stat(fs, &file->node, &file->st);
 	if (SQFS_OK != error)
 	{
@@ -57,6 +62,16 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	if (-1 == fd) {
 		goto failure;
 	}
+
+	// construct a handle (mainly) for win32
+	handle = (int *)malloc(sizeof(int));
+	if (NULL == handle) {
+		errno = ENOMEM;
+		goto failure;
+	}
+	*handle = fd;
+	file->payload = (void *)handle;
+
 	// make sure that our global fd table is large enough
 	nr = fd + 1;
 
@@ -66,32 +81,23 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
+		fds = realloc(squash_global_fdtable.fds,
 						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
+		squash_global_fdtable.fds = fds;
 		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
 		squash_global_fdtable.nr = nr;
 	}
-	MUTEX_UNLOCK(&squash_global_mutex);
-
-	// construct a handle (mainly) for win32
-	handle = (int *)malloc(sizeof(int));
-	if (NULL == handle) {
-		errno = ENOMEM;
-		goto failure;
-	}
-	*handle = fd;
-	file->payload = (void *)handle;
 
 	// insert the fd into the global fd table
 	file->fd = fd;
-	MUTEX_LOCK(&squash_global_mutex);
 	squash_global_fdtable.fds[fd] = file;
         if (squash_global_fdtable.end < fd + 1) {
         	squash_global_fdtable.end = fd + 1;
@@ -103,6 +109,11 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != fd) {
+		close(fd);
+	}
+	free(file->payload);
+	free(file->filename);
 	free(file);
 	return -1;
 }
-- 
2.43.0


From 89ed8edacd6db8e0cbf58a5ba879b5afc193fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 04/38] fix: look up and drop descriptors under the lock of
 their table

The table could be moved by an open in another thread while it was read, and
squash_close gave the number back to the system before it dropped its entry,
so that the entry of a file opened meanwhile was removed instead.
---
 include/squash.h |  5 +++--
 src/fd.c         | 28 ++++++++++++++++++++++------
 src/stat.c       |  5 +++--
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 2794c27..d22e469 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -49,8 +49,8 @@
 #define SQUASH_SEEK_CUR 1 /* set file offset to current plus offset */
 #define SQUASH_SEEK_END 2 /* set file offset to EOF plus offset */
 
-#define SQUASH_VALID_VFD(vfd) ((vfd) < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[(vfd)])
-#define SQUASH_VFD_FILE(vfd) (squash_global_fdtable.fds[(vfd)])
+#define SQUASH_VALID_VFD(vfd) (NULL != squash_find_vfd(vfd))
+#define SQUASH_VFD_FILE(vfd) (squash_find_vfd(vfd))
 
 extern sqfs_err squash_errno;
 
@@ -58,6 +58,7 @@ sqfs_err squash_start();
 ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize);
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node);
 struct squash_file * squash_find_entry(void *ptr);
+struct squash_file * squash_find_vfd(int vfd);
 
 /*
  * Obtains information about the file pointed to by path of a SquashFS fs.
diff --git a/src/fd.c b/src/fd.c
index 9b95ee8..9385040 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -123,20 +123,36 @@ int squash_open(sqfs *fs, const char *path)
         return squash_open_inner(fs, path, 1);
 }
 
+struct squash_file * squash_find_vfd(int vfd)
+{
+	struct squash_file *file = NULL;
+	// the table may be moved by an open in another thread
+	MUTEX_LOCK(&squash_global_mutex);
+	if (vfd >= 0 && vfd < squash_global_fdtable.nr) {
+		file = squash_global_fdtable.fds[vfd];
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return file;
+}
+
 int squash_close(int vfd)
 {
 	int ret;
 	struct squash_file *file;
 
-        if (!SQUASH_VALID_VFD(vfd)) {
+        // the system may give the number to another thread
+        // as soon as it is closed, so its entry has to go under the same lock
+        MUTEX_LOCK(&squash_global_mutex);
+        if (vfd < 0 || vfd >= squash_global_fdtable.nr || NULL == squash_global_fdtable.fds[vfd]) {
+                MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
         }
         ret = close(vfd);
 	if (-1 == ret) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		return -1;
 	}
-        MUTEX_LOCK(&squash_global_mutex);
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
@@ -167,12 +183,12 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
-	if (!SQUASH_VALID_VFD(vfd))
+	file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		goto failure;
 	}
-	file = squash_global_fdtable.fds[vfd];
 
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
@@ -191,12 +207,12 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
-	if (!SQUASH_VALID_VFD(vfd))
+	file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
 		file->pos = offset;
diff --git a/src/stat.c b/src/stat.c
index 121f575..544f232 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -72,11 +72,12 @@ failure:
 
 int squash_fstat(int vfd, struct stat *buf)
 {
-	if (!SQUASH_VALID_VFD(vfd))
+	struct squash_file *file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	*buf = SQUASH_VFD_FILE(vfd)->st;
+	*buf = file->st;
 	return 0;
 }
-- 
2.43.0


From dbfd83035b3fd66f11df4324ca5063dec5fee14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 05/38] fix: squash_opendir releases everything it took when it
 fails

It kept the descriptor, whose entry then referred to a freed stream.
---
 src/dirent.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a379069..a032d3f 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -16,7 +16,7 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	sqfs_err error;
 	short found;
 	SQUASH_DIR *dir = calloc(1, sizeof(SQUASH_DIR));
-	int *handle;
+	struct squash_file *file;
 	
 	if (NULL == dir)
 	{
@@ -27,18 +27,11 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(filename);
-	dir->fd = squash_open(fs, filename);
-	if (-1 == dir->fd)
+	if (NULL == dir->filename)
 	{
+		errno = ENOMEM;
 		goto failure;
 	}
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
-	MUTEX_LOCK(&squash_global_mutex);
-	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
-	MUTEX_UNLOCK(&squash_global_mutex);
-
 	dir->actual_nr = 0;
 	dir->loc = 0;
 	error = sqfs_inode_get(fs, &dir->node, sqfs_inode_root(fs));
@@ -61,11 +54,25 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	{
 		goto failure;
 	}
+	// nothing can fail any more once the descriptor refers to dir
+	dir->fd = squash_open(fs, filename);
+	if (-1 == dir->fd)
+	{
+		goto failure;
+	}
+	file = SQUASH_VFD_FILE(dir->fd);
+
+	MUTEX_LOCK(&squash_global_mutex);
+	free(file->payload);
+	file->payload = (void *)dir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+
 	return dir;
 failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From b87dbc8f63bd2e67a5b0e52fe324dafb62119bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 06/38] fix: squash_readdir keeps its entries when memory runs
 out and reports errors

A failed realloc lost the entries of the stream, and an unreadable directory
looked like its end because errno was left alone.
---
 src/dirent.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a032d3f..1a4af19 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -111,12 +111,13 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
+		void *entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+		if (NULL == entries)
 		{
 			errno = ENOMEM;
 			return NULL;
 		}
+		dirp->entries = entries;
 		dirp->nr = nr;
 	}
 
@@ -131,6 +132,7 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			&error);
 		if (SQFS_OK != error)
 		{
+			errno = EIO;
 			return NULL;
 		}
 		else if (!dirp->entries[dirp->actual_nr].not_eof)
-- 
2.43.0


From 8580f53addb8694cc863f083dd55c380f4428005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:53 +0000
Subject: [PATCH 07/38] fix: sqfs_dir_next resumes at the same entry after an
 error

An entry that could be read only in part left the cursor inside of it.
---
 src/dir.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e9842af..3be67a4 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -125,6 +125,7 @@ short sqfs_dentry_is_dir(sqfs_dir_entry *entry) {
 short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 		sqfs_err *err) {
 	struct squashfs_dir_entry e;
+	sqfs_dir before = *dir; /* where to resume after an error */
 	
 	*err = SQFS_OK;
 	entry->offset = dir->offset;
@@ -134,12 +135,12 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 			return 0;
 		
 		if ((*err = sqfs_dir_md_read(fs, dir, &dir->header, sizeof(dir->header))))
-			return 0;
+			goto error;
 		++(dir->header.count); /* biased by one */
 	}
 	
 	if ((*err = sqfs_dir_md_read(fs, dir, &e, sizeof(e))))
-		return 0;
+		goto error;
 	--(dir->header.count);
 	
 	entry->type = e.type;
@@ -150,11 +151,15 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	*err = sqfs_dir_md_read(fs, dir, entry->name, sqfs_dentry_name_size(entry));
 	if (*err)
-		return 0;
+		goto error;
 	
 	entry->next_offset = dir->offset;
 
 	return 1;
+
+error:
+	*dir = before;
+	return 0;
 }
 
 
-- 
2.43.0


From 8c8f976aea9b7906428e3cc1f01d7f23cb193478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 08/38] fix: squash_scandir returns every entry or fails

It stopped at 1024 entries, gave the caller a freed array for an empty result,
crashed when memory ran out and took an unreadable directory for a complete one.
---
 src/scandir.c | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..75ad794 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -17,42 +17,57 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	int (*compar)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))
 {
 	SQUASH_DIR * openeddir = 0;
-	size_t n = 0;
-	struct SQUASH_DIRENT **list = NULL;
+	size_t n = 0, max = MAX_DIR_ENT;
+	int saved_errno = errno;
+	struct SQUASH_DIRENT **list = NULL, **larger;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
 
-	if((dirname == NULL) || (namelist == NULL))
+	if((dirname == NULL) || (namelist == NULL)) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	openeddir = squash_opendir(fs, dirname);
 	if(openeddir == NULL)
 		return -1;
 
 
-	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
+	list = (struct SQUASH_DIRENT **)malloc(max*sizeof(struct SQUASH_DIRENT *));
+	if(list == NULL)
+		goto nomem;
 
 
-	while(( ent = squash_readdir(openeddir)) != NULL)
+	// only errno tells the end of the directory from an error
+	while((errno = 0, ent = squash_readdir(openeddir)) != NULL)
 	{
 		if( select && !select(ent))
 			continue;
 
+		if(n >= max) {
+			larger = (struct SQUASH_DIRENT **)realloc(list, 2*max*sizeof(struct SQUASH_DIRENT *));
+			if(larger == NULL)
+				goto nomem;
+			list = larger;
+			max *= 2;
+		}
+
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+			goto nomem;
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
 	}
+	if(errno)
+		goto failure;
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
-	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
+	//realloc the array, which the caller has to free even if it is empty
+	*namelist = realloc((void *)list,(n ? n : 1)*sizeof(struct SQUASH_DIRENT *));
 	if(*namelist == NULL)
 		*namelist = list;
 
@@ -61,6 +76,17 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	if(compar)
 		qsort((void *)*namelist,n,sizeof(struct SQUASH_DIRENT *),(qsort_compar)compar);
 
+	errno = saved_errno;
 	return n;
 
-}
\ No newline at end of file
+nomem:
+	errno = ENOMEM;
+failure:
+	saved_errno = errno;
+	while(n > 0)
+		free(list[--n]);
+	free(list);
+	squash_closedir(openeddir);
+	errno = saved_errno;
+	return -1;
+}
-- 
2.43.0


From d1a99143227eda93759282eb4adf14a6a6c0db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 09/38] fix: squash_lseek refuses impossible targets

A negative target or an unknown directive moved the position (or not) and was
reported as a success, and seeking to the end of a directory aborted.
---
 src/fd.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index 9385040..429d077 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -207,6 +207,7 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
+	uint64_t pos;
 	file = SQUASH_VFD_FILE(vfd);
 	if (NULL == file)
 	{
@@ -215,17 +216,28 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	}
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		pos = offset;
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		pos = file->pos + offset;
 	}
-	else if (SQUASH_SEEK_END == whence)
+	else if (SQUASH_SEEK_END == whence && S_ISREG(file->node.base.mode))
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		pos = file->node.xtra.reg.file_size;
 	}
+	else
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	// a position before the start, or one that off_t cannot hold
+	if ((off_t)pos < 0)
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	file->pos = pos;
 	return file->pos;
 }
 
-- 
2.43.0


From 4292bb0eb15a4e45a182d072c1d3a5b78d860bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 10/38] fix: reading zero bytes is no error

---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index ee3827e..bc62201 100644
--- a/src/file.c
+++ b/src/file.c
@@ -124,7 +124,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	
 	if (*size < 0 || start > file_size)
 		return SQFS_ERR;
-	if (start == file_size) {
+	if (start == file_size || *size == 0) {
 		*size = 0;
 		return SQFS_OK;
 	}
-- 
2.43.0


From eb4de4be6c94cbe009ac8d05bfbe5d7712ff0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 11/38] fix: the block index has no entry for the tail fragment

A read that started in the fragment of a file whose block list ends with a
metadata block used an index entry behind the last one.
---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index bc62201..abaf9c6 100644
--- a/src/file.c
+++ b/src/file.c
@@ -292,7 +292,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From 94caa64ba44d05b658b02605d51b3a38328019d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 12/38] fix: an unknown compression is an error of mounting,
 not an abort

---
 src/decompress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..07ea9bc 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -26,7 +26,6 @@
 #include "squash/squashfs_fs.h"
 
 #include <zlib.h>
-#include <assert.h>
 
 static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 		void *out, size_t *outsz) {
@@ -39,6 +38,7 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type)
+		return NULL;
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From bb2202795bcf7712ae52ef3e0136a944b628f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 13/38] fix: mounting without memory does not free its caches
 twice

---
 src/cache.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cache.c b/src/cache.c
index 5a999cc..b019059 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -42,7 +42,11 @@ sqfs_err sqfs_cache_init(sqfs_cache *cache, size_t size, size_t count,
 	if (cache->idxs && cache->buf)
 		return SQFS_OK;
 	
-	sqfs_cache_destroy(cache);
+	/* the cache can still be destroyed, as an empty one */
+	free(cache->idxs);
+	free(cache->buf);
+	cache->idxs = NULL;
+	cache->buf = NULL;
 	return SQFS_ERR;
 }
 
-- 
2.43.0


From 2d28de6f11bc700e3ffc4125b1f92670ab807cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 14/38] fix: a stack that was only initialised can be destroyed

A traversal that could not be opened for lack of memory used its size unset.
---
 src/stack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..5c7eb66 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,8 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->freer = NULL;
+	s->capacity = s->size = 0;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From 7dadfab79fa3c748c1d4d8af94c6d3d39e459c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 15/38] fix: pruning does not restart a traversal that has
 ended or failed

---
 src/traverse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/traverse.c b/src/traverse.c
index 012d98b..95e16ba 100644
--- a/src/traverse.c
+++ b/src/traverse.c
@@ -199,7 +199,9 @@ error:
 }
 
 sqfs_err sqfs_traverse_prune(sqfs_traverse *trv) {
-	trv->state = TRAVERSE_NAME_REMOVE;
+	/* in any other state there is no directory to stay out of */
+	if (trv->state == TRAVERSE_DESCEND)
+		trv->state = TRAVERSE_NAME_REMOVE;
 	return SQFS_OK;
 }
 
-- 
2.43.0


From b4d98c7a164bfb9fd5960975208301888a4b135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 16/38] fix: squash_readlink with an empty buffer writes
 nothing

---
 src/fs.c       | 2 ++
 src/readlink.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index 417ea16..4c6cba1 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -296,6 +296,8 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 		return SQFS_OK;
 	}
 
+	if (*size == 0)
+		return SQFS_ERR; /* no room for the nul */
 	if (want > *size - 1)
 		want = *size - 1;
 	cur = inode->next;
diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..076f2a3 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From 137d1efaf4ba3ef74173c089d8293b256330745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:37 +0000
Subject: [PATCH 17/38] fix: '..' removes the path component before it

After '//' or '/./' it removed nothing, and at the start of a path without a
leading slash the search for the component left the buffer.
---
 src/dir.c | 57 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 3be67a4..7e681a1 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -282,37 +282,44 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 
 static sqfs_err clear_dot_dot(char *path)
 {
-	char *dot_dot, *dot_dot_left;
+	char *in = path, *out = path, *start, *name;
+	size_t size;
 	
 	// we might get a path like /a/b/../../c/d
-	// in which case we need to interpret dot-dot's
-	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
+	// in which case we need to interpret dot-dot's,
+	// which refer to the component before, and not to "." or to an empty one
+	if ('/' == *in) {
+		++out;
 	}
-	// what about /a/b/c/d/..
-	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
+	start = out;
+	while (*in) {
+		while ('/' == *in) {
+			++in;
+		}
+		name = in;
+		while (*in && '/' != *in) {
+			++in;
+		}
+		size = in - name;
+		if (0 == size || (1 == size && '.' == *name)) {
+			continue;
+		}
+		if (2 == size && 0 == strncmp(name, "..", 2)) {
+			if (out == start) {
 				return SQFS_ERR;
 			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		*dot_dot_left = '\0';
+			do {
+				--out;
+			} while (out > start && '/' != *out);
+			continue;
+		}
+		if (out > start) {
+			*out++ = '/';
+		}
+		memmove(out, name, size);
+		out += size;
 	}
+	*out = '\0';
 	return SQFS_OK;
 }
 
-- 
2.43.0


From aa539327aa8cbe67ce26cd9c381af669990296cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 18/38] fix: follow symbolic links in bounded steps and bounded
 memory

A link that leads through itself recursed without end, long targets ran over
or were cut to fixed buffers, and a relative target was resolved against the
path the link was reached by instead of the directory it is in.
---
 src/dir.c | 150 ++++++++++++++++++++++++------------------------------
 1 file changed, 66 insertions(+), 84 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 7e681a1..c53cb91 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -327,86 +327,54 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 
 	sqfs_err error;
 	short found;
-	char base_path[SQUASHFS_PATH_LEN];
-	char new_path[SQUASHFS_PATH_LEN];
-	int inode_num;
 
-	if(strlen(path) > SQUASHFS_PATH_LEN){
-		errno = ENAMETOOLONG;
+	if (!S_ISLNK(node->base.mode)) {
+		errno = EINVAL;
+		return SQFS_ERR;
+	}
+	error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
+	if (SQFS_OK != error) {
+		return error;
+	}
+	error = sqfs_lookup_path_inner(fs, node, path, &found, 1);
+	if (SQFS_OK != error) {
+		return error;
+	}
+	if (!found) {
+		errno = ENOENT;
 		return SQFS_ERR;
 	}
-
-	strncpy(base_path, path, SQUASHFS_PATH_LEN);
-	inode_num = 0;
-	do {
-		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
-		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
-		if (link_length > 0) {
-			if (buf_link[0] == '/') { // is Absolute Path
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
-				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
-				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
-
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
-				
-				error = clear_dot_dot(new_path);
-				if (SQFS_OK != error) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-				
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			}
-
-			inode_num++;
-			if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
-				errno = ELOOP;
-				return SQFS_ERR;
-			}
-			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
-
-		} else {
-			return SQFS_ERR;
-		}
-
-
-	} while (S_ISLNK(node->base.mode));
-
 	return SQFS_OK;
 }
 
+/* The path that remains to be looked up, from the root, once the link of that
+   name has been read: dir_len bytes of path lead to the directory of the link
+   and the bytes from rest on follow its name. The caller frees it. */
+static char *link_path(const char *path, size_t dir_len, const char *target,
+		size_t target_len, const char *rest)
+{
+	char *ret;
+	if ('/' == *target) { // is Absolute Path
+		dir_len = 0;
+	}
+	ret = malloc(dir_len + target_len + strlen(rest) + 1);
+	if (NULL == ret) {
+		errno = ENOMEM;
+		return NULL;
+	}
+	memcpy(ret, path, dir_len);
+	memcpy(ret + dir_len, target, target_len);
+	strcpy(ret + dir_len + target_len, rest);
+	return ret;
+}
+
 sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incoming_path,
 		short *found, short follow_link) {
 	sqfs_err err, ret;
 	sqfs_name buf;
-	sqfs_path path_here;
+	sqfs_path target;
+	ssize_t target_len;
+	int links = 0;
 	sqfs_dir_entry entry;
 	char *path, *path0;
 	short is_last_component;
@@ -460,24 +428,38 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 			ret = err;
 			goto exit;
 		}
-		if (!*path) {
-			is_last_component = 1;
-		} else if (path0 + strlen(path0) - 1 == path) {
-			assert('/' == *path);
-			is_last_component = 1;
-		} else {
-			is_last_component = 0;
-		}
+		/* no trailing slash is left by clear_dot_dot */
+		is_last_component = !*path;
 
 		if (S_ISLNK(inode->base.mode)) {
 			if (!(is_last_component && !follow_link)) {
-				size_t size_here = path - path0;
-				if (size_here > SQUASHFS_PATH_LEN) {
-					size_here = SQUASHFS_PATH_LEN;
+				/* every link takes the place of its name in the path,
+				   which is then followed from the root again */
+				char *new_path;
+				if (++links > SQUASHFS_MAX_LINK_LEVEL) {
+					errno = ELOOP;
+					ret = SQFS_ERR;
+					goto exit;
+				}
+				target_len = squash_readlink_inode(fs, inode, target, sizeof(target));
+				if (target_len <= 0) {
+					ret = SQFS_ERR;
+					goto exit;
+				}
+				new_path = link_path(path0, name - path0, target, target_len, path);
+				if (NULL == new_path) {
+					ret = SQFS_ERR;
+					goto exit;
+				}
+				free(path0);
+				path = path0 = new_path;
+				*found = 0;
+				err = clear_dot_dot(path);
+				if (SQFS_OK != err) {
+					ret = SQFS_OK; /* not found */
+					goto exit;
 				}
-				memcpy(path_here, path0, size_here);
-				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
+				err = sqfs_inode_get(fs, inode, sqfs_inode_root(fs));
 				if (SQFS_OK != err) {
 					ret = err;
 					goto exit;
-- 
2.43.0


From 8d8ed74e2d8bcbf95b3c0699e5851e82db2808f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 19/38] fix: temporary names do not run out within a second

Every call seeded the generator with the same second and tried three names
only, so the fourth extraction within a second always failed.
---
 src/extract.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..8684052 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -113,6 +113,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
@@ -124,23 +127,36 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	const int squash_buf_sz = 32767;
 	char squash_buf[squash_buf_sz + 1];
 	int ret, try_cnt = 0;
+	static short seeded = 0;
+	unsigned int number;
 	struct stat statbuf;
 
-	srand(time(NULL) * getpid());
-	while (try_cnt < 3) {
+	// seeding again within the same second would only repeat the names
+	if (!seeded) {
+		srand(time(NULL) * getpid());
+		seeded = 1;
+	}
+	while (try_cnt < 10000) {
+		// try_cnt makes progress even if rand() does not
+		number = (unsigned int)rand() + try_cnt;
 		if (ext_name) {
-			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d.%s", tmpdir, rand(), ext_name);
+			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%u.%s", tmpdir, number, ext_name);
 		} else {
-			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d", tmpdir, rand());
+			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%u", tmpdir, number);
 		}
 		if (-1 == ret) {
 			return NULL;
 		}
+		if (ret >= squash_buf_sz) {
+			errno = ENAMETOOLONG;
+			return NULL;
+		}
 		if (-1 == stat(squash_buf, &statbuf)) {
 			return strdup(squash_buf);
 		}
 		++try_cnt;
 	}
+	errno = EEXIST;
 	return NULL;
 }
 #endif // _WIN32
-- 
2.43.0


From fe7510a3d652a29b7b969dcb262d8fa89e50de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 20/38] fix: an extraction is complete or leaves nothing behind

The descriptor of the file was never closed, a failed extraction left its
partial file, a failing fclose counted as success, directories and devices
were extracted as garbage, and a file made by somebody else between the choice
of the name and its creation was overwritten.
---
 src/extract.c | 67 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 8684052..9783a88 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -164,9 +164,10 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
-	FILE *fp;
-	int fd;
-	SQUASH_OS_PATH tmpf;
+	FILE *fp = NULL;
+	int fd, closed, saved_errno, try_cnt = 0;
+	short created = 0;
+	SQUASH_OS_PATH tmpf = NULL;
 	size_t size;
 	ssize_t ssize;
 	char buffer[16 * 1024];
@@ -177,45 +178,71 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (-1 == fd) {
 		return NULL;
 	}
+	file = SQUASH_VFD_FILE(fd);
+	if (!S_ISREG(file->st.st_mode)) {
+		errno = EINVAL;
+		goto failure;
+	}
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
-		return NULL;
-	}
-	tmpf = squash_tmpf(tmpdir, ext_name);
-	if (NULL == tmpf) {
-		return NULL;
+		goto failure;
 	}
+	do {
+		free((void *)tmpf);
+		tmpf = squash_tmpf(tmpdir, ext_name);
+		if (NULL == tmpf) {
+			goto failure;
+		}
 #ifdef _WIN32
-	fp = _wfopen(tmpf, L"wb");
+		fp = _wfopen(tmpf, L"wb");
 #else
-	fp = fopen(tmpf, "wb");
+		// never write to a file that somebody else made meanwhile
+		fp = fopen(tmpf, "wbx");
 #endif
+	} while (NULL == fp && EEXIST == errno && ++try_cnt < 100);
 	if (NULL == fp) {
-		free(tmpf);
-		return NULL;
+		goto failure;
 	}
-	file = SQUASH_VFD_FILE(fd);
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 	}
 	assert(0 == offset);
-	fclose(fp);
+	closed = fclose(fp);
+	fp = NULL;
+	if (0 != closed) {
+		created = 1;
+		goto failure;
+	}
+	squash_close(fd);
 	return tmpf;
+failure:
+	saved_errno = errno;
+	if (NULL != fp) {
+		created = 1;
+		fclose(fp);
+	}
+	if (created) {
+#ifdef _WIN32
+		DeleteFileW(tmpf);
+#else
+		unlink(tmpf);
+#endif
+	}
+	free((void *)tmpf);
+	squash_close(fd);
+	errno = saved_errno ? saved_errno : EIO;
+	return NULL;
 }
 
 struct SquashExtractEntry {
-- 
2.43.0


From 6c77acbf1411f17939eb5ab3ba9c3ffc38ff29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:27 +0000
Subject: [PATCH 21/38] fix: extracted files belong to the image and path they
 were extracted for

The cache kept the caller's path buffer instead of a copy, still knew the
files of an image after another one was mounted at the same address, handed
out removed files after it was cleared, and lost files when memory ran out.
---
 include/squash.h |  4 ++-
 src/extract.c    | 63 ++++++++++++++++++++++++++++++++++++++----------
 src/fs.c         |  3 +++
 3 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index d22e469..bf5de1c 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -230,7 +230,8 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
  * is returned.
  * Otherwise, a value of `NULL` is returned
  * and `errno` is set to the reason of the error.
- * The returned path is referenced by an internal cache and must not be freed.
+ * The returned path is referenced by an internal cache and must not be freed;
+ * it is valid until squash_extract_clear_cache() removes the file.
  */
 #ifdef _WIN32
 #define SQUASH_OS_PATH const wchar_t*
@@ -241,5 +242,6 @@ SQUASH_OS_PATH squash_tmpdir();
 SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name);
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name);
 void squash_extract_clear_cache();
+void squash_extract_forget(sqfs *fs);
 
 #endif
diff --git a/src/extract.c b/src/extract.c
index 9783a88..a8d4b2e 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -265,44 +265,81 @@ static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, cons
 	}
 	return ptr;
 }
-static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+static struct SquashExtractEntry* squash_extract_cache_entry(sqfs *fs, const char *path)
 {
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return;
+		return NULL;
 	}
 	ptr->fs = fs;
-	ptr->path = path;
-	ptr->ret = ret;
-	ptr->next = squash_extract_cache;
-	squash_extract_cache = ptr;
+	// the caller may do with its buffer what it likes
+	ptr->path = strdup(path);
+	if (NULL == ptr->path) {
+		free(ptr);
+		return NULL;
+	}
+	ptr->ret = NULL;
+	ptr->next = NULL;
+	return ptr;
+}
+
+static void squash_extract_cache_free(struct SquashExtractEntry* ptr)
+{
+	free((void *)ptr->path);
+	free((void *)ptr->ret);
+	free(ptr);
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
-	SQUASH_OS_PATH ret;
-	static struct SquashExtractEntry* found;
+	const struct SquashExtractEntry* found;
+	struct SquashExtractEntry* entry;
 
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
 		return found->ret;
 	}
-	ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL != ret) {
-		squash_extract_cache_insert(fs, path, ret);
+	// a file that is not in the cache would never be removed,
+	// so there has to be an entry for it before it is made
+	entry = squash_extract_cache_entry(fs, path);
+	if (NULL == entry) {
+		errno = ENOMEM;
+		return NULL;
+	}
+	entry->ret = squash_uncached_extract(fs, path, ext_name);
+	if (NULL == entry->ret) {
+		squash_extract_cache_free(entry);
+		return NULL;
+	}
+	entry->next = squash_extract_cache;
+	squash_extract_cache = entry;
+	return entry->ret;
+}
+
+void squash_extract_forget(sqfs *fs)
+{
+	struct SquashExtractEntry* ptr = squash_extract_cache;
+	while (NULL != ptr) {
+		if (fs == ptr->fs) {
+			ptr->fs = NULL;
+		}
+		ptr = ptr->next;
 	}
-	return ret;
 }
 
 void squash_extract_clear_cache()
 {
 	struct SquashExtractEntry* ptr = squash_extract_cache;
+	struct SquashExtractEntry* next;
+	squash_extract_cache = NULL;
 	while (NULL != ptr) {
 #ifdef _WIN32
 		DeleteFileW(ptr->ret);
 #else
 		unlink(ptr->ret);
 #endif
-		ptr = ptr->next;
+		next = ptr->next;
+		squash_extract_cache_free(ptr);
+		ptr = next;
 	}
 }
diff --git a/src/fs.c b/src/fs.c
index 4c6cba1..44ef0db 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -25,6 +25,7 @@
 #include "squash/fs.h"
 
 #include "squash/file.h"
+#include "squash.h"
 
 
 #include <stdlib.h>
@@ -90,6 +91,8 @@ sqfs_err sqfs_init(sqfs *fs, sqfs_fd_t fd, size_t offset) {
 }
 
 void sqfs_destroy(sqfs *fs) {
+	/* another image may be mounted at the same address */
+	squash_extract_forget(fs);
 	sqfs_table_destroy(&fs->id_table);
 	sqfs_table_destroy(&fs->frag_table);
 	if (sqfs_export_ok(fs))
-- 
2.43.0


From 4250b908fa28651eb4c5e4b82c265e56e96abb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 22/38] fix: extraction from several threads at once is
 serialised

The list of extracted files was read and changed without a lock, and a static
variable of squash_extract could return another thread's file.
---
 include/squash/mutex.h |  1 +
 src/extract.c          | 30 ++++++++++++++++++++++--------
 src/fd.c               |  4 +++-
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/squash/mutex.h b/include/squash/mutex.h
index 16573a7..18ee16c 100644
--- a/include/squash/mutex.h
+++ b/include/squash/mutex.h
@@ -23,6 +23,7 @@
 #endif
 
 extern MUTEX squash_global_mutex;
+extern MUTEX squash_extract_mutex;
 
 int MUTEX_INIT(MUTEX *mutex);
 int MUTEX_LOCK(MUTEX *mutex);
diff --git a/src/extract.c b/src/extract.c
index a8d4b2e..b5ac222 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -253,6 +253,7 @@ struct SquashExtractEntry {
 };
 
 static struct SquashExtractEntry* squash_extract_cache = NULL;
+MUTEX squash_extract_mutex;
 
 static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, const char *path)
 {
@@ -292,45 +293,57 @@ static void squash_extract_cache_free(struct SquashExtractEntry* ptr)
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
+	SQUASH_OS_PATH ret = NULL;
 	const struct SquashExtractEntry* found;
 	struct SquashExtractEntry* entry;
 
+	// held throughout, so that the same path is never extracted twice
+	MUTEX_LOCK(&squash_extract_mutex);
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
-		return found->ret;
+		ret = found->ret;
+		goto exit;
 	}
 	// a file that is not in the cache would never be removed,
 	// so there has to be an entry for it before it is made
 	entry = squash_extract_cache_entry(fs, path);
 	if (NULL == entry) {
 		errno = ENOMEM;
-		return NULL;
+		goto exit;
 	}
-	entry->ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL == entry->ret) {
+	ret = squash_uncached_extract(fs, path, ext_name);
+	if (NULL == ret) {
 		squash_extract_cache_free(entry);
-		return NULL;
+		goto exit;
 	}
+	entry->ret = ret;
 	entry->next = squash_extract_cache;
 	squash_extract_cache = entry;
-	return entry->ret;
+exit:
+	MUTEX_UNLOCK(&squash_extract_mutex);
+	return ret;
 }
 
 void squash_extract_forget(sqfs *fs)
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
+	struct SquashExtractEntry* ptr;
+	MUTEX_LOCK(&squash_extract_mutex);
+	ptr = squash_extract_cache;
 	while (NULL != ptr) {
 		if (fs == ptr->fs) {
 			ptr->fs = NULL;
 		}
 		ptr = ptr->next;
 	}
+	MUTEX_UNLOCK(&squash_extract_mutex);
 }
 
 void squash_extract_clear_cache()
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
+	struct SquashExtractEntry* ptr;
 	struct SquashExtractEntry* next;
+	MUTEX_LOCK(&squash_extract_mutex);
+	ptr = squash_extract_cache;
 	squash_extract_cache = NULL;
 	while (NULL != ptr) {
 #ifdef _WIN32
@@ -342,4 +355,5 @@ void squash_extract_clear_cache()
 		squash_extract_cache_free(ptr);
 		ptr = next;
 	}
+	MUTEX_UNLOCK(&squash_extract_mutex);
 }
diff --git a/src/fd.c b/src/fd.c
index 429d077..f484758 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -246,8 +246,9 @@ static void squash_halt()
 	if (squash_global_fdtable.fds) {
 		free(squash_global_fdtable.fds);
 	}
-	MUTEX_DESTORY(&squash_global_mutex);
 	squash_extract_clear_cache();
+	MUTEX_DESTORY(&squash_extract_mutex);
+	MUTEX_DESTORY(&squash_global_mutex);
 }
 
 sqfs_err squash_start()
@@ -256,6 +257,7 @@ sqfs_err squash_start()
 	squash_global_fdtable.nr = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
+	MUTEX_INIT(&squash_extract_mutex);
 	ret = atexit(squash_halt);
 	if (0 == ret) {
 		return SQFS_OK;
-- 
2.43.0


From 954f0274d6a874025e8a4b466e401abc7cdcfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 23/38] fix: release the entry of a virtual descriptor even if
 close reports an error

close() gives up the number also when it fails with EINTR or EIO. The entry
that stayed behind made the next descriptor the system gave that number look
like a virtual file, and left a directory stream half freed.
---
 src/fd.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index f484758..eca6630 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -149,10 +149,8 @@ int squash_close(int vfd)
                 return -1;
         }
         ret = close(vfd);
-	if (-1 == ret) {
-		MUTEX_UNLOCK(&squash_global_mutex);
-		return -1;
-	}
+        // the number is released even if close reports an error such as EINTR
+        // so the entry has to go in any case
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
@@ -175,7 +173,7 @@ int squash_close(int vfd)
                 assert(squash_global_fdtable.end > vfd + 1);
         }
         MUTEX_UNLOCK(&squash_global_mutex);
-        return 0;
+        return ret;
 }
 
 ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
-- 
2.43.0


From 48ddb29b746fe6fb59c53b9a7d786b6abdd554eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 24/38] fix: shadow directory is published when it is complete
 and its set-up can fail without harm

---
 sample/enclose_io_unix.c | 106 ++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 52 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..ea48019 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -73,6 +73,7 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 	} else {
 		unlink(arg1);
 	}
+	return 0;
 }
 #endif
 
@@ -87,62 +88,63 @@ static void mkdir_workdir_halt()
 
 static char * enclose_io_mkdir_workdir()
 {
-	if (NULL == mkdir_workdir) {
-		MUTEX_LOCK(&squash_global_mutex);
-		if (NULL == mkdir_workdir) {
-			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
-			if (NULL == generic_mkdir_workdir) {
-				mkdir_workdir = NULL;
-				return NULL;
-			}
+	SQUASH_OS_PATH tmpdir;
+	char *created = NULL;
+	char *ret;
+	int try_cnt = 0;
+
+	MUTEX_LOCK(&squash_global_mutex);
+	if (NULL != mkdir_workdir) {
+		goto exit;
+	}
+	tmpdir = squash_tmpdir();
+	if (NULL == tmpdir) {
+		goto exit;
+	}
+	do {
+		// only a name that is taken is worth another try
+		generic_mkdir_workdir = squash_tmpf(tmpdir, NULL);
+		if (NULL == generic_mkdir_workdir) {
+			break;
+		}
 #ifdef _WIN32
-			mkdir_workdir = malloc(MAX_PATH * 3);
-			if (NULL == mkdir_workdir) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if (mkdir(mkdir_workdir)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if (atexit(mkdir_workdir_halt)) {
-				free(mkdir_workdir);
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
+		created = malloc(MAX_PATH * 3);
+		if (NULL == created || (size_t)-1 == wcstombs(created, generic_mkdir_workdir, MAX_PATH)
+			|| mkdir(created)) {
+			free(created);
+			created = NULL;
+			free(generic_mkdir_workdir);
+			generic_mkdir_workdir = NULL;
+		}
 #else
-			mkdir_workdir = generic_mkdir_workdir;
-			if (mkdir(mkdir_workdir, S_IRWXU)) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-			if (atexit(mkdir_workdir_halt)) {
-				mkdir_workdir = NULL;
-				free(generic_mkdir_workdir);
-				generic_mkdir_workdir = NULL;
-				return NULL;
-			}
-#endif
+		created = (char *)generic_mkdir_workdir;
+		if (mkdir(created, S_IRWXU)) {
+			free(created);
+			created = NULL;
+			generic_mkdir_workdir = NULL;
 		}
-		MUTEX_UNLOCK(&squash_global_mutex);
+#endif
+	} while (NULL == created && EEXIST == errno && ++try_cnt < 100);
+	free((void *)tmpdir);
+	if (NULL == created) {
+		goto exit;
+	}
+	if (atexit(mkdir_workdir_halt)) {
+		// nobody would remove it
+		rmdir(created);
+#ifdef _WIN32
+		free(created);
+#endif
+		free((void *)generic_mkdir_workdir);
+		generic_mkdir_workdir = NULL;
+		errno = ENOMEM;
+		goto exit;
 	}
-	return mkdir_workdir;
+	mkdir_workdir = created;
+exit:
+	ret = mkdir_workdir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return ret;
 }
 
 static int enclose_io_mkdir_consult(char *path, mode_t mode) {
-- 
2.43.0


From 39ebb148933d2cf6bf42adf423dededdec4072cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 25/38] fix: paths never leave the shadow directory and
 creating never hides what the image has

---
 sample/enclose_io_common.h |  18 +-
 sample/enclose_io_unix.c   | 361 ++++++++++++++++---------------------
 2 files changed, 158 insertions(+), 221 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..9ed64fd 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -67,27 +67,15 @@ extern sqfs_path enclose_io_cwd;
      9, 8, 7, 6, 5, 4, 3, 2, 1, 0
 
 short enclose_io_is_path(char *pathname);
+short enclose_io_shadow_path(const char *path, char *expanded);
 short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
-	if (mkdir_workdir) { \
+	{ \
 		sqfs_path mkdir_workdir_expanded; \
-		char *mkdir_workdir_expanded_head; \
-		size_t mkdir_workdir_len; \
-		size_t memcpy_len; \
 		struct stat mkdir_workdir_buf; \
-		mkdir_workdir_len = strlen(mkdir_workdir); \
-		memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len); \
-		memcpy_len = strlen(PATH); \
-		if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) { \
-			memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len; \
-		} \
-		memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (PATH), memcpy_len); \
-		mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0'; \
-		mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope); \
-		if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) { \
-			memmove(mkdir_workdir_expanded_head, mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope), strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1); \
+		if (enclose_io_shadow_path((PATH), mkdir_workdir_expanded)) { \
 			if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
 				return(RETURN2); \
 			} \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index ea48019..f047f00 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -147,125 +147,154 @@ exit:
 	return ret;
 }
 
-static int enclose_io_mkdir_consult(char *path, mode_t mode) {
-	int ret;
-	char *head = NULL;
-	char *p = NULL;
-	char *p_left = NULL;
-	struct stat buf;
-	char *path2;
+/*
+ * Where path lies in the shadow directory: 0 if there is none yet, or if path
+ * does not lead below the scope. As everywhere in libsquash ".." takes away
+ * the component before it, so that no path ever leaves the shadow directory.
+ * expanded must have room for a sqfs_path.
+ */
+short enclose_io_shadow_path(const char *path, char *expanded)
+{
+	sqfs_path norm;
+	size_t norm_len = 0;
+	size_t scope_len = strlen(enclose_io_mkdir_scope);
+	size_t workdir_len, len;
+	const char *workdir;
+
+	if (strncmp(path, enclose_io_mkdir_scope, scope_len) || '/' != path[scope_len]) {
+		return 0;
+	}
+	while (*path) {
+		while ('/' == *path) {
+			++path;
+		}
+		len = strcspn(path, "/");
+		if (0 == len || (1 == len && '.' == path[0])) {
+			// nothing to add
+		} else if (2 == len && '.' == path[0] && '.' == path[1]) {
+			while (norm_len > 0 && '/' != norm[--norm_len]) {
+			}
+		} else {
+			if (norm_len + 1 + len > SQUASHFS_PATH_LEN) {
+				return 0;
+			}
+			norm[norm_len++] = '/';
+			memcpy(norm + norm_len, path, len);
+			norm_len += len;
+		}
+		path += len;
+	}
+	if ('/' == path[-1] && norm_len < SQUASHFS_PATH_LEN) {
+		norm[norm_len++] = '/';
+	}
+	norm[norm_len] = '\0';
+	if (strncmp(norm, enclose_io_mkdir_scope, scope_len)
+		|| ('/' != norm[scope_len] && '\0' != norm[scope_len])) {
+		return 0;
+	}
 
-	while (strlen(path) - 1 >= 0 && '/' == path[strlen(path) - 1]) {
-		path[strlen(path) - 1] = 0;
+	MUTEX_LOCK(&squash_global_mutex);
+	workdir = mkdir_workdir;
+	MUTEX_UNLOCK(&squash_global_mutex);
+	if (NULL == workdir) {
+		return 0;
 	}
+	workdir_len = strlen(workdir);
+	if (workdir_len + norm_len - scope_len > SQUASHFS_PATH_LEN) {
+		return 0;
+	}
+	memcpy(expanded, workdir, workdir_len);
+	memcpy(expanded + workdir_len, norm + scope_len, norm_len - scope_len + 1);
+	return 1;
+}
+
+/*
+ * Sets the shadow directory up if need be, and makes in it those directories
+ * above path that the image has. expanded becomes the place of path.
+ */
+static int enclose_io_shadow_prepare(const char *path, mode_t mode, char *expanded)
+{
+	struct stat buf;
+	sqfs_path virtual_path;
+	size_t workdir_len;
+	char *workdir;
+	char *p;
 
-	head = strstr(path, enclose_io_mkdir_scope);
-	if (NULL == head || '/' != head[strlen(enclose_io_mkdir_scope)]) {
+	workdir = enclose_io_mkdir_workdir();
+	if (NULL == workdir) {
+		errno = ENOENT;
+		return -1;
+	}
+	if (!enclose_io_shadow_path(path, expanded)) {
 		errno = ENOENT;
 		return -1;
 	}
 
-	for (p = head + strlen(enclose_io_mkdir_scope) + 1; *p; p++) {
-		if (*p == '/') {
+	workdir_len = strlen(workdir);
+	for (p = expanded + workdir_len; *p; p++) {
+		if (*p == '/' && p > expanded + workdir_len) {
 			*p = 0;
-			if (0 == squash_stat(enclose_io_fs, head, &buf) && S_ISDIR(buf.st_mode)) {
-				path2 = strdup(path);
-				if (NULL == path2) {
-					return -1;
-				} else {
-					memmove(
-						path2 + (head-path),
-						path2 + (head-path) + strlen(enclose_io_mkdir_scope),
-						strlen(path2 + (head-path) + strlen(enclose_io_mkdir_scope)) + 1
-					);
+			if (strlen(enclose_io_mkdir_scope) + strlen(expanded + workdir_len) > SQUASHFS_PATH_LEN) {
+				*p = '/';
+				break;
+			}
+			strcpy(virtual_path, enclose_io_mkdir_scope);
+			strcat(virtual_path, expanded + workdir_len);
+			if (0 == squash_stat(enclose_io_fs, virtual_path, &buf) && S_ISDIR(buf.st_mode)) {
 #ifdef _WIN32
-					mkdir(path2);
+				mkdir(expanded);
 #else
-					mkdir(path2, mode);
+				mkdir(expanded, mode | S_IRWXU);
 #endif
-					free(path2);
-				}
-				*p = '/';
 			} else {
 				*p = '/';
 				break;
 			}
+			*p = '/';
 		}
 	}
-	memmove(
-		head,
-		head + strlen(enclose_io_mkdir_scope),
-		strlen(head + strlen(enclose_io_mkdir_scope)) + 1
-	);
+	return 0;
+}
+
+static int enclose_io_shadow_mkdir(const char *path, mode_t mode)
+{
+	struct stat buf;
+	sqfs_path expanded;
+	size_t len;
+
+	// nothing may hide what the image has already
+	if (0 == squash_stat(enclose_io_fs, path, &buf)) {
+		errno = EEXIST;
+		return -1;
+	}
+	if (ENOMEM == errno) {
+		return -1;
+	}
+	if (enclose_io_shadow_prepare(path, mode, expanded)) {
+		return -1;
+	}
+	len = strlen(expanded);
+	while (len > 1 && '/' == expanded[len - 1]) {
+		expanded[--len] = 0;
+	}
 #ifdef _WIN32
-	return mkdir(path);
+	return mkdir(expanded);
 #else
-	return mkdir(path, mode);
+	return mkdir(expanded, mode);
 #endif
 }
 
 int enclose_io_mkdir(const char *path, mode_t mode)
 {
 	if (enclose_io_cwd[0] && '/' != *path) {
-		struct stat buf;
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
 
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
-		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(enclose_io_expanded) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, enclose_io_expanded);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
-			errno = EEXIST;
-			return -1;
-		} else {
-			return ret_inner;
-		}
+		return enclose_io_shadow_mkdir(enclose_io_expanded, mode);
 	} else if (enclose_io_is_path(path)) {
-		struct stat buf;
-		int ret;
-		int ret_inner;
-		const char* workdir;
-		const char* workdir_path;
-
-		ret = squash_stat(enclose_io_fs, path, &buf);
-		workdir = enclose_io_mkdir_workdir();
-		if (NULL == workdir) {
-			errno = ENOENT;
-			return -1;
-		}
-		workdir_path = malloc(strlen(workdir) + strlen(path) + 1);
-		if (NULL == workdir_path) {
-			errno = ENOMEM;
-			return -1;
-		}
-		strcpy(workdir_path, workdir);
-		strcat(workdir_path, path);
-		ret_inner = enclose_io_mkdir_consult(workdir_path, mode);
-		free(workdir_path);
-		if (0 == ret) {
-			errno = EEXIST;
-			return -1;
-		} else {
-			return ret_inner;
-		}
+		return enclose_io_shadow_mkdir(path, mode);
 	} else {
 		return mkdir(path, mode);
 	}
@@ -717,34 +746,15 @@ void enclose_io_chdir_helper(const char *path)
 int enclose_io_chdir(const char *path)
 {
 	if (enclose_io_is_path(path)) {
-		if (mkdir_workdir) {
-			sqfs_path mkdir_workdir_expanded;
-			char *mkdir_workdir_expanded_head;
-			size_t mkdir_workdir_len;
-			size_t memcpy_len;
-			struct stat mkdir_workdir_buf;
-			mkdir_workdir_len = strlen(mkdir_workdir);
-			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
-			memcpy_len = strlen(path);
-			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-			}
-			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (path), memcpy_len);
-			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
-				memmove(
-					mkdir_workdir_expanded_head,
-					mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-					strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
-				);
-				if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
-					int ret = chdir(mkdir_workdir_expanded);
-					if (0 == ret) {
-						enclose_io_chdir_helper(path);
-					}
-					return ret;
+		sqfs_path mkdir_workdir_expanded;
+		struct stat mkdir_workdir_buf;
+		if (enclose_io_shadow_path(path, mkdir_workdir_expanded)) {
+			if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
+				int ret = chdir(mkdir_workdir_expanded);
+				if (0 == ret) {
+					enclose_io_chdir_helper(path);
 				}
+				return ret;
 			}
 		}
 
@@ -837,27 +847,10 @@ EncloseIOSetCurrentDirectoryW(
 
 		W_ENCLOSE_IO_PATH_CONVERT(lpPathName);
 
-		if (mkdir_workdir) {
+		{
 			sqfs_path mkdir_workdir_expanded;
-			char *mkdir_workdir_expanded_head;
-			size_t mkdir_workdir_len;
-			size_t memcpy_len;
 			struct stat mkdir_workdir_buf;
-			mkdir_workdir_len = strlen(mkdir_workdir);
-			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
-			memcpy_len = strlen(enclose_io_converted);
-			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-			}
-			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (enclose_io_converted), memcpy_len);
-			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
-				memmove(
-					mkdir_workdir_expanded_head,
-					mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-					strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
-				);
+			if (enclose_io_shadow_path(enclose_io_converted, mkdir_workdir_expanded)) {
 				if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
 					BOOL ret = SetCurrentDirectory(mkdir_workdir_expanded);
 					if (ret) {
@@ -1000,6 +993,32 @@ int enclose_io_fstat(int fildes, struct stat *buf)
 	}
 }
 
+static int enclose_io_shadow_open(const char *path, int flags, mode_t mode)
+{
+	struct stat buf;
+	sqfs_path expanded;
+
+	if (!enclose_io_shadow_path(path, expanded) || 0 != stat(expanded, &buf)) {
+		if (0 == squash_stat(enclose_io_fs, path, &buf)) {
+			// nothing may hide a directory of the image
+			if (S_ISDIR(buf.st_mode)) {
+				errno = EISDIR;
+				return -1;
+			}
+			if (O_EXCL & flags) {
+				errno = EEXIST;
+				return -1;
+			}
+		} else if (ENOMEM == errno) {
+			return -1;
+		}
+	}
+	if (enclose_io_shadow_prepare(path, 0777, expanded)) {
+		return -1;
+	}
+	return open(expanded, flags, mode);
+}
+
 int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 {
 	if (enclose_io_cwd[0] && '/' != *pathname) {
@@ -1020,42 +1039,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(enclose_io_expanded, '/');
-			if (dir_thereof_ptr) {
-				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(enclose_io_expanded, 0777);
-				*dir_thereof_ptr = '/';
-			}
-			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
-				char *mkdir_workdir_expanded_head;
-				size_t mkdir_workdir_len;
-				size_t memcpy_len;
-				struct stat mkdir_workdir_buf;
-				mkdir_workdir_len = strlen(mkdir_workdir);
-				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
-				memcpy_len = strlen(enclose_io_expanded);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-				}
-				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
-				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
-					memmove(
-						mkdir_workdir_expanded_head,
-						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
-					);
-					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
-				} else {
-					errno = ENOENT;
-					return enclose_io_dos_return(-1);
-				}
-			} else {
-				errno = ENOENT;
-				return enclose_io_dos_return(-1);
-			}
+			return enclose_io_dos_return(enclose_io_shadow_open(enclose_io_expanded, flags, mode));
 		}
 	} else if (enclose_io_is_path(pathname)) {
 		if (!(O_CREAT & flags)) {
@@ -1071,42 +1055,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(pathname, '/');
-			if (dir_thereof_ptr) {
-				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(pathname, 0777);
-				*dir_thereof_ptr = '/';
-			}
-			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
-				char *mkdir_workdir_expanded_head;
-				size_t mkdir_workdir_len;
-				size_t memcpy_len;
-				struct stat mkdir_workdir_buf;
-				mkdir_workdir_len = strlen(mkdir_workdir);
-				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
-				memcpy_len = strlen(pathname);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
-				}
-				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], pathname, memcpy_len);
-				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
-					memmove(
-						mkdir_workdir_expanded_head,
-						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-						strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1
-					);
-					return enclose_io_dos_return(open(mkdir_workdir_expanded, flags, mode));
-				} else {
-					errno = ENOENT;
-					return enclose_io_dos_return(-1);
-				}
-			} else {
-				errno = ENOENT;
-				return enclose_io_dos_return(-1);
-			}
+			return enclose_io_dos_return(enclose_io_shadow_open(pathname, flags, mode));
 		}
 	} else {
 		if (2 == nargs) {
-- 
2.43.0


From 109e18638487e8fe8f70c635a531a121b77fa468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 26/38] fix: redirected access() of a created file checks the
 mode that was asked for

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index f047f00..b178da1 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -671,14 +671,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 3e48344b0fbbd70d8aaa0b8f58b27ec0ae4e6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 27/38] fix: redirected pread() restores the position when the
 read fails

---
 sample/enclose_io_unix.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b178da1..7ef9e16 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -622,9 +622,7 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 			return -1;
 		}
 		read_ssize = squash_read(d, buf, nbyte);
-		if (-1 == read_ssize) {
-			return -1;
-		}
+		// a failing read does not move the position either
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
 		assert(backup_off == lseek_off);
 		return read_ssize;
-- 
2.43.0


From a75910f88488ce9ff00c7e8d439efc23ce64fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 28/38] fix: redirected readv() reports what it has read and
 goes on behind empty buffers

---
 sample/enclose_io_unix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 7ef9e16..d1e8f8d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -640,11 +640,12 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 		for (i = 0; i < iovcnt; ++i) {
 			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
 			if (-1 == i_ssize) {
-				return -1;
-			} else if (0 == i_ssize) {
+				// what was read already must not get lost
+				return ret ? ret : -1;
+			}
+			ret += i_ssize;
+			if (i_ssize < iov[i].iov_len) {
 				break;
-			} else {
-				ret += i_ssize;
 			}
 		}
 		return ret;
-- 
2.43.0


From aca9433df260dac0f5ad0389ebcafd37d466ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 29/38] fix: redirected openat() passes the number of arguments
 that open() takes

---
 sample/enclose_io_unix.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index d1e8f8d..f1591b5 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1209,7 +1209,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(2, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1217,7 +1217,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(2, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1232,7 +1232,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(3, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1240,7 +1240,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(3, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From 2d61d025e5db102015f34c7d8d16f67293db128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 30/38] fix: redirected read() and lseek() do not cut their
 result down to an int

---
 sample/enclose_io_unix.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index f1591b5..6a24f01 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1082,7 +1082,11 @@ int enclose_io_close(int fildes)
 ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte)
 {
 	if (SQUASH_VALID_VFD(fildes)) {
-		return enclose_io_dos_return(squash_read(fildes, buf, nbyte));
+		ssize_t ret = squash_read(fildes, buf, nbyte);
+		if (-1 == ret) {
+			enclose_io_dos_return(-1);
+		}
+		return ret;
 	} else {
 		return read(fildes, buf, nbyte);
 	}
@@ -1091,7 +1095,11 @@ ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte)
 off_t enclose_io_lseek(int fildes, off_t offset, int whence)
 {
 	if (SQUASH_VALID_VFD(fildes)) {
-		return enclose_io_dos_return(squash_lseek(fildes, offset, whence));
+		off_t ret = squash_lseek(fildes, offset, whence);
+		if (-1 == ret) {
+			enclose_io_dos_return(-1);
+		}
+		return ret;
 	} else {
 		return lseek(fildes, offset, whence);
 	}
-- 
2.43.0


From 5a3d03e22dce5e41dc686afb052b0b8f9ad003af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 31/38] fix: redirected getcwd() refuses a buffer that is too
 small

---
 sample/enclose_io_unix.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 6a24f01..18f5e62 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -801,13 +801,15 @@ char *enclose_io_getcwd(char *buf, size_t size)
 				#endif
 				return NULL;
 			}
-		} else {
-			if (size - 1 < memcpy_len) {
-				memcpy_len = size - 1;
-			}
+		} else if (size < memcpy_len) {
+			// the slash at the end gives room to the terminating null
+			errno = size ? ERANGE : EINVAL;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return NULL;
 		}
 		memcpy(buf, enclose_io_cwd, memcpy_len);
-		assert(memcpy_len - 1 >= 0);
 		buf[memcpy_len - 1] = '\0';
 		return buf;
 	} else {
-- 
2.43.0


From 9920065d4a95b27c1fda41142ae5fc98689a41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 32/38] fix: redirected chdir() takes a relative path relative
 to the enclosed directory

---
 sample/enclose_io_unix.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 18f5e62..b601a26 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -744,7 +744,13 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
-	if (enclose_io_is_path(path)) {
+	if (enclose_io_cwd[0] && '/' != *path && !enclose_io_is_path(path)) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	} else if (enclose_io_is_path(path)) {
 		sqfs_path mkdir_workdir_expanded;
 		struct stat mkdir_workdir_buf;
 		if (enclose_io_shadow_path(path, mkdir_workdir_expanded)) {
-- 
2.43.0


From 082d8ed8df7abf7aa2c816106fc51145ed46343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 33/38] fix: redirected dlopen() fails if the library cannot be
 extracted

---
 sample/enclose_io_unix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b601a26..5c98a72 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -656,7 +656,15 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 
 void* enclose_io_dlopen(const char* path, int mode)
 {
-    return dlopen(enclose_io_ifextract(path, NULL), mode);
+    SQUASH_OS_PATH extracted = NULL;
+    if (NULL != path) {
+        extracted = enclose_io_ifextract(path, NULL);
+        if (NULL == extracted) {
+            // NULL would stand for the program itself
+            return NULL;
+        }
+    }
+    return dlopen(extracted, mode);
 }
 
 int enclose_io_access(const char *path, int mode)
-- 
2.43.0


From 5a0a59f6d51a32f70203218c1231238f8b67dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 34/38] fix: redirected execv() fails instead of aborting when
 memory is short

---
 sample/enclose_io_unix.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 5c98a72..1465fbb 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -335,17 +335,30 @@ int enclose_io__exec(const char *path, char *const argv[])
 	size_t exec_path_len = 2 * PATH_MAX;
 	char* exec_path = (char*)(malloc(exec_path_len));
 
+	if (NULL == exec_path) {
+		errno = ENOMEM;
+		return -1;
+	}
 	ret = enclose_io_exepath(exec_path, &exec_path_len);
-	assert(0 == ret);
-
-	ret = setenv("ENCLOSE_IO_USE_ORIGINAL_RUBY", "true", 1);
-	ret = setenv("ENCLOSE_IO_USE_ORIGINAL_NODE", "true", 1);
-	assert(0 == ret);
+	if (0 != ret) {
+		free(exec_path);
+		if (!errno) {
+			errno = ENOENT;
+		}
+		return -1;
+	}
 
 	argc = 1;
 	while (argv[argc]) { ++argc; }
 	new_argv = (char **)malloc( (2 + argc) * sizeof(char *));
-	assert(new_argv);
+	if (NULL == new_argv
+		|| 0 != setenv("ENCLOSE_IO_USE_ORIGINAL_RUBY", "true", 1)
+		|| 0 != setenv("ENCLOSE_IO_USE_ORIGINAL_NODE", "true", 1)) {
+		free(new_argv);
+		free(exec_path);
+		errno = ENOMEM;
+		return -1;
+	}
 	new_argv[0] = argv[0];
 	new_argv[1] = path;
 	for (i = 1; i < argc; ++i) {
-- 
2.43.0


From aed76472afc507dfee3b9c28bcf79ce3eee91494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 35/38] fix: redirected fdopendir() checks its memory, frees it
 on failure and looks the descriptor up under the lock

---
 sample/enclose_io_unix.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 1465fbb..debb3cb 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -477,7 +477,12 @@ DIR * enclose_io_fdopendir(int fd)
 		return fdopendir(fd);
 	}
 
-	file = squash_global_fdtable.fds[fd];
+	file = squash_find_vfd(fd);
+	if (NULL == file)
+	{
+		errno = EBADF;
+		return NULL;
+	}
 
 	dir = calloc(1, sizeof(SQUASH_DIR));
 
@@ -493,6 +498,11 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -518,18 +528,18 @@ DIR * enclose_io_fdopendir(int fd)
 		goto failure;
 	}
 	
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
 	MUTEX_LOCK(&squash_global_mutex);
-	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
+	handle = (int *)(file->payload);
+	file->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
+	free(handle);
 
 	return dir;
 failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From fe117d58eca3c92475a2289a78840ddcda9183ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 36/38] fix: redirected calls refuse a relative path that is
 too long instead of cutting it off

---
 sample/enclose_io_common.h |  4 ++++
 sample/enclose_io_unix.c   | 26 +++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index 9ed64fd..b48d3a7 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -91,6 +91,10 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 			memcpy(&enclose_io_expanded[enclose_io_cwd_len], (path), memcpy_len); \
 			enclose_io_expanded[enclose_io_cwd_len + memcpy_len] = '\0'
 
+#define ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, failure)	\
+			if (SQUASHFS_PATH_LEN < strlen(enclose_io_cwd) + strlen(path)) { errno = ENAMETOOLONG; return (failure); } \
+			ENCLOSE_IO_GEN_EXPANDED_NAME(path)
+
 //TODO maybe use WideCharToMultiByte
 #define W_ENCLOSE_IO_PATH_CONVERT(path) \
 			enclose_io_converted = (char *)enclose_io_converted_storage; \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index debb3cb..9a553d8 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -291,7 +291,7 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
 
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		return enclose_io_shadow_mkdir(enclose_io_expanded, mode);
 	} else if (enclose_io_is_path(path)) {
 		return enclose_io_shadow_mkdir(path, mode);
@@ -381,7 +381,7 @@ int enclose_io_execv(const char *path, char *const argv[])
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		return enclose_io__exec(enclose_io_expanded, argv);
 	} else if (enclose_io_is_path(path)) {
 		return enclose_io__exec(path, argv);
@@ -396,7 +396,7 @@ int enclose_io_lstat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_lstat(enclose_io_fs, enclose_io_expanded, buf),
@@ -419,7 +419,7 @@ ssize_t enclose_io_readlink(const char *path, char *buf, size_t bufsize)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_readlink(enclose_io_fs, enclose_io_expanded, buf, bufsize),
@@ -444,7 +444,7 @@ DIR * enclose_io_opendir(const char *filename)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(filename);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(filename, NULL);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			(DIR *)squash_opendir(enclose_io_fs, enclose_io_expanded),
@@ -612,7 +612,7 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(dirname);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(dirname, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_scandir(enclose_io_fs, enclose_io_expanded, namelist, select, compar),
@@ -697,7 +697,7 @@ int enclose_io_access(const char *path, int mode)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, -1);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
@@ -748,7 +748,7 @@ SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name)
         sqfs_path enclose_io_expanded;
         size_t enclose_io_cwd_len;
         size_t memcpy_len;
-        ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+        ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, NULL);
         return squash_extract(enclose_io_fs, enclose_io_expanded, ext_name);
     }
     else if (enclose_io_is_path(path)) {
@@ -779,11 +779,15 @@ int enclose_io_chdir(const char *path)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, enclose_io_dos_return(-1));
 		return enclose_io_chdir(enclose_io_expanded);
 	} else if (enclose_io_is_path(path)) {
 		sqfs_path mkdir_workdir_expanded;
 		struct stat mkdir_workdir_buf;
+		if (SQUASHFS_PATH_LEN - 1 < strlen(path)) {
+			errno = ENAMETOOLONG;
+			return enclose_io_dos_return(-1);
+		}
 		if (enclose_io_shadow_path(path, mkdir_workdir_expanded)) {
 			if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) {
 				int ret = chdir(mkdir_workdir_expanded);
@@ -1005,7 +1009,7 @@ int enclose_io_stat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, enclose_io_dos_return(-1));
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			enclose_io_dos_return(squash_stat(enclose_io_fs, enclose_io_expanded, buf)),
@@ -1063,7 +1067,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
-		ENCLOSE_IO_GEN_EXPANDED_NAME(pathname);
+		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(pathname, enclose_io_dos_return(-1));
 		if (!(O_CREAT & flags)) {
 			ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 				enclose_io_expanded,
-- 
2.43.0


From 9873e83555427176f71171a48385b440bd6604d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 37/38] fix: the hash table survives a failed growth instead of
 losing its entries

---
 src/hash.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..3e6ad82 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -46,25 +46,27 @@ static sqfs_err sqfs_hash_double(sqfs_hash *h) {
 	sqfs_hash_bucket **ob = h->buckets;
 	size_t oc = h->capacity;
 	size_t i;
-	sqfs_err err;
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
-		return err;
+	/* the table stays as it is if there is no memory for a bigger one */
+	sqfs_hash_bucket **nb = calloc(oc * 2, sizeof(sqfs_hash_bucket*));
+	if (!nb)
+		return SQFS_ERR;
 	
 	for (i = 0; i < oc; ++i) {
 		sqfs_hash_bucket *b = ob[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			size_t hash = (b->key & (oc * 2 - 1));
+			b->next = nb[hash];
+			nb[hash] = b;
 			b = n;
 		}
 	}
 	
+	h->buckets = nb;
+	h->capacity = oc * 2;
 	free(ob);
-	return err;
+	return SQFS_OK;
 }
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
-- 
2.43.0


From 10fe9c848aa6474aca5c376bea3c08a7ccdf72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 38/38] fix: a path that leads above the root names nothing in
 the shadow directory either

mkdir() of such a path did not see that the image has the directory, and hid
it behind an empty one before it was refused.
---
 sample/enclose_io_unix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9a553d8..0c04b0b 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -172,6 +172,10 @@ short enclose_io_shadow_path(const char *path, char *expanded)
 		if (0 == len || (1 == len && '.' == path[0])) {
 			// nothing to add
 		} else if (2 == len && '.' == path[0] && '.' == path[1]) {
+			if (0 == norm_len) {
+				// the image has nothing above its root either
+				return 0;
+			}
 			while (norm_len > 0 && '/' != norm[--norm_len]) {
 			}
 		} else {
-- 
2.43.0

