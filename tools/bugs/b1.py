from gen import bug
bug('C01-static-name','C01','two threads resolving different paths of one image at the same time','the name buffer of a lookup is shared by all threads, so a lookup compares another thread\'s entry and misses an existing file',
 [('src/dir.c','\tsqfs_name buf;\n','\tstatic sqfs_name buf;\n')],
r'''
static volatile int stop;
static void *work(void *a) {
	long me = (long)a; char p[64]; struct stat st; int i;
	for (i = 0; i < 12000 && !stop; i++) {
		int k = (i * 7 + me * 13) % 40;
		sprintf(p, "/directory%02d/file-number-%02d", k, (k * 3) % 40);
		if (squash_stat(&FS, p, &st) || st.st_size != k + (k * 3) % 40) { stop = 1; return (void *)1; }
	}
	return NULL;
}
int main(int c, char **v) {
	pthread_t t[6]; long i; void *r; int bad = 0;
	mount_image(v[1]);
	for (i = 0; i < 6; i++) pthread_create(&t[i], NULL, work, (void *)i);
	for (i = 0; i < 6; i++) { pthread_join(t[i], &r); bad |= r != NULL; }
	need(!bad, "a thread did not find a file that exists, or found another one");
	return 0;
}
''','''
image = build(D(**{'directory%02d' % i: D(**{'file-number-%02d' % j: F(b'x' * (i + j)) for j in range(40)}) for i in range(40)}))
''')
bug('C01-static-zstream','C01','two threads decoding blocks of different caches (data and metadata) at the same time','the decoder state is reused between calls without a lock, so two decodes running at once garble each other',
 [('src/decompress.c','''	uLongf zout = *outsz;
	int zerr = uncompress((Bytef*)out, &zout, in, insz);
	if (zerr != Z_OK)
		return SQFS_ERR;
	*outsz = zout;
''','''	/* setting up an inflate state for every block is expensive, keep one */
	static z_stream zs;
	static int ready = 0;
	int zerr;
	if (!ready) {
		if (inflateInit(&zs) != Z_OK)
			return SQFS_ERR;
		ready = 1;
	} else if (inflateReset(&zs) != Z_OK) {
		return SQFS_ERR;
	}
	zs.next_in = (Bytef*)in;
	zs.avail_in = insz;
	zs.next_out = (Bytef*)out;
	zs.avail_out = *outsz;
	zerr = inflate(&zs, Z_FINISH);
	if (zerr != Z_STREAM_END)
		return SQFS_ERR;
	*outsz = zs.total_out;
''')],
r'''
static volatile int stop;
static void *work(void *a) {
	long me = (long)a; char p[64], b[8192]; struct stat st; int i, fd, n;
	for (i = 0; i < 4000 && !stop; i++) {
		if (me & 1) {
			int k = (i * 7 + me) % 3000;
			sprintf(p, "/d/f%04d", k);
			if (squash_stat(&FS, p, &st) || st.st_size != k) { stop = 1; return (void *)1; }
		} else {
			sprintf(p, "/big%ld", me);
			fd = squash_open(&FS, p);
			if (fd < 0) { stop = 1; return (void *)1; }
			squash_lseek(fd, (i % 16) * 4096, SQUASH_SEEK_SET);
			n = squash_read(fd, b, 4096);
			if (n != 4096 || b[0] != 'a' + i % 16 || b[4095] != 'a' + i % 16) { stop = 1; return (void *)1; }
			squash_close(fd);
		}
	}
	return NULL;
}
int main(int c, char **v) {
	pthread_t t[6]; long i; void *r; int bad = 0;
	mount_image(v[1]);
	for (i = 0; i < 6; i++) pthread_create(&t[i], NULL, work, (void *)i);
	for (i = 0; i < 6; i++) { pthread_join(t[i], &r); bad |= r != NULL; }
	need(!bad, "a read failed or returned wrong data while another thread was decoding");
	return 0;
}
''','''
image = build(D(d=D(**{'f%04d' % i: F(b'x' * i) for i in range(3000)}), **{'big%d' % k: F(b''.join(bytes([97 + i]) * 4096 for i in range(16))) for k in (0, 2, 4)}))
''')
bug('C01-blockidx-unlock','C01','nine or more indexed files and two threads, one of which evicts the index of a file between another thread\'s lookup and use of it','the block index is used after the lock that keeps it from being evicted was released',
 [('src/file.c','''	skipped = (metablock * SQUASHFS_METADATA_SIZE / sizeof(sqfs_blocklist_entry))
		- (bl->cur.offset / sizeof(sqfs_blocklist_entry));
	
	blockidx += metablock - 1;
''','''	/* the index is known now, the rest is this reader's own arithmetic */
	MUTEX_UNLOCK(&fs->blockidx.mutex);
	skipped = (metablock * SQUASHFS_METADATA_SIZE / sizeof(sqfs_blocklist_entry))
		- (bl->cur.offset / sizeof(sqfs_blocklist_entry));
	
	blockidx += metablock - 1;
'''),('src/file.c','''	bl->block = blockidx->data_block;
	ret = SQFS_OK;

exit:
''','''	bl->block = blockidx->data_block;
	return SQFS_OK;

exit:
''')],
r'''
#include <malloc.h>
#include <dlfcn.h>
static __thread int slow; static volatile int waiting, done;
static char B[16], tag[12][8]; static int fd[12];
/* a thread that is held up whenever it has released the lock of the block index */
int pthread_mutex_unlock(pthread_mutex_t *m) {
	static int (*real)(pthread_mutex_t *); int r;
	if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	r = real(m);
	if (slow && m == &FS.blockidx.mutex) { waiting = 1; while (!done) usleep(1000); }
	return r;
}
static int rd(int k, int blk) { return squash_lseek(fd[k], blk * 4096, SQUASH_SEEK_SET) == blk * 4096 && squash_read(fd[k], B, 4) == 4 && !memcmp(B, tag[k], 4); }
static void *work(void *a) {
	char b[8]; slow = 1;
	return (void *)(long)(squash_read(fd[0], b, 4) == 4 && !memcmp(b, tag[0], 4));
}
int main(int c, char **v) {
	pthread_t t; char p[64]; int i; void *r;
	mallopt(M_PERTURB, 0x5a); mount_image(v[1]);
	for (i = 0; i < 12; i++) { sprintf(tag[i], "AB%02d", i); sprintf(p, "/f%02d", i); fd[i] = squash_open(&FS, p); }
	for (i = 0; i < 3; i++) need(rd(0, 2060 + i), "data");
	need(squash_lseek(fd[0], 2070 * 4096, SQUASH_SEEK_SET) > 0, "lseek");
	pthread_create(&t, NULL, work, NULL);
	for (i = 0; i < 5000 && !waiting; i++) usleep(1000);
	for (i = 1; i < 12; i++) need(rd(i, 2060), "data of another file");
	done = 1; pthread_join(t, &r); need(r != NULL, "data of a reader that was held up");
	return 0;
}
''','''
image = build(D(**{'f%02d' % k: FB(2100, lambda i, k=k: (b'AB%02d' % k) * 1024, ext=True) for k in range(12)}))
''')
bug('C02-grow-unlocked','C02','two threads opening files at the moment the descriptor table has to grow','the table is grown before the lock is taken, so one thread can store into a table that the other has just freed',
 [('src/fd.c',"""	MUTEX_LOCK(&squash_global_mutex);
	if (squash_global_fdtable.nr < nr)
	{
""","""	if (squash_global_fdtable.nr < nr)
	{
"""),('src/fd.c',"""						    nr * sizeof(struct squash_file *));
""","""						    nr * sizeof(struct squash_file *));
		MUTEX_LOCK(&squash_global_mutex);
"""),('src/fd.c',"""		squash_global_fdtable.nr = nr;
	}
""","""		squash_global_fdtable.nr = nr;
	} else {
		MUTEX_LOCK(&squash_global_mutex);
	}
""")],
r'''
#include <sys/wait.h>
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { void *r; usleep(2000); r = __real_realloc(p, n); usleep(2000); return r; }
static pthread_barrier_t bar;
static int fds[8][40];
static void *work(void *a) {
	long me = (long)a; int i; char p[16];
	pthread_barrier_wait(&bar);
	for (i = 0; i < 40; i++) { sprintf(p, "/f%ld", me); fds[me][i] = squash_open(&FS, p); }
	return NULL;
}
int main(int c, char **v) {
	int round, st;
	for (round = 0; round < 20; round++) {
		pid_t pid = fork();
		if (!pid) {
			pthread_t t[8]; long i, k; char b[4];
			mount_image(v[1]); pthread_barrier_init(&bar, NULL, 8);
			for (i = 0; i < 8; i++) pthread_create(&t[i], NULL, work, (void *)i);
			for (i = 0; i < 8; i++) pthread_join(t[i], NULL);
			for (i = 0; i < 8; i++) for (k = 0; k < 40; k++) {
				need(fds[i][k] >= 0, "open failed");
				need(squash_read(fds[i][k], b, 1) == 1 && b[0] == '0' + i, "an open descriptor was lost");
			}
			_exit(0);
		}
		waitpid(pid, &st, 0);
		need(WIFEXITED(st) && WEXITSTATUS(st) == 0, "descriptor table damaged");
	}
	return 0;
}
''','''
image = build(D(**{'f%d' % k: F(b'%d' % k) for k in range(8)}))
''',src='asan',flags='-Wl,--wrap=realloc',asan='detect_leaks=0:exitcode=1')
bug('C02-table-end','C02','close a low descriptor, open again so that the number is reused, while higher ones stay open','the end of the table moves below descriptors that are open, which are then not found and abort on close',
 [('src/fd.c','''        if (squash_global_fdtable.end < fd + 1) {
        	squash_global_fdtable.end = fd + 1;
        }
''','''        squash_global_fdtable.end = fd + 1;
''')],
r'''
int main(int c, char **v) {
	SQUASH_DIR *d; int a, b;
	mount_image(v[1]);
	a = squash_open(&FS, "/f"); d = squash_opendir(&FS, "/"); need(a >= 0 && d, "open");
	need(squash_find_entry(d) != NULL, "find");
	squash_close(a);
	b = squash_open(&FS, "/f"); need(b >= 0 && b < squash_dirfd(d), "number is reused");
	need(squash_find_entry(d) != NULL, "an open directory is not found any more");
	need(0 == squash_closedir(d), "closedir");
	return 0;
}
''','''
image = build(D(f=F(b'abc'), g=F(b'def')))
''')
bug('C03-hole-tail','C03','a file whose last, partial block is a hole (no fragment)','a hole at the end of a file is as long as a block, so a read goes past the end of the file',
 [('src/file.c','''				data_size = (size_t)(file_size - bl.pos);
				if (data_size > block_size)
					data_size = block_size;
''','''				data_size = block_size;
''')],
r'''
int main(int c, char **v) {
	char b[9000]; int fd; ssize_t n;
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	n = squash_read(fd, b, sizeof b);
	need(n == 4196, "read past the end of the file");
	return 0;
}
''','''
image = build(D(f=F(b'a' * 4096 + b'\\0' * 100, frag=False)))
''')
bug('C03-pos-on-error','C03','a read that fails (undecodable block), followed by another read on the same descriptor','a failed read moves the position',
 [('src/fd.c','''	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
	if (SQFS_OK != error)
	{
		goto failure;
	}
	file->pos += nbyte;
	return nbyte;
''','''	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
	file->pos += nbyte;
	if (SQFS_OK != error)
	{
		goto failure;
	}
	return nbyte;
''')],
r'''
int main(int c, char **v) {
	char b[9000]; int fd; ssize_t n; unsigned char *bad;
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	need(squash_read(fd, b, 4096) == 4096 && b[0] == 'a', "first block");
	bad = IMG + 96 + ((unsigned char)0 ? 0 : 0);
	{ size_t i; for (i = 96; i < 4096; i++) if (IMG[i] == 0x78 && IMG[i + 1] == 0x9c && i > 96) { bad = IMG + i; break; } }
	*bad = 0;
	need(squash_read(fd, b, 4096) == -1, "read of a damaged block");
	need(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == 4096, "position after a failed read");
	*bad = 0x78;
	need(squash_read(fd, b, 4096) == 4096 && b[0] == 'b', "second block");
	return 0;
}
''','''
image = build(D(f=F(b'a' * 4096 + b'b' * 4096 + b'c' * 4096)))
''')
bug('C04-minor','C04','a device node with a minor number of 65536 or more','the upper bits of a device number are lost',
 [('src/fs.c','((rdev >> 12) & 0xfff00)','((rdev >> 12) & 0xff00)')],
r'''
#include <sys/sysmacros.h>
int main(int c, char **v) {
	struct stat st;
	mount_image(v[1]);
	need(0 == squash_stat(&FS, "/d", &st), "stat");
	need(major(st.st_rdev) == 259 && minor(st.st_rdev) == 0x12345, "device number");
	return 0;
}
''','''
image = build(D(d=N('b', 259, 0x12345)))
''')
bug('C04-blockidx-align','C04','an indexed file (2048 blocks or more) whose block list is not aligned to four bytes in the metadata, read beyond the first metadata block','random access into a large file takes the wrong block sizes',
 [('src/file.c','	bl->cur.offset %= sizeof(sqfs_blocklist_entry);\n','	bl->cur.offset = 0; /* the list goes on at the start of that block */\n')],
r'''
int main(int c, char **v) {
	char b[8]; int fd, i; unsigned w;
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	for (i = 2099; i > 2000; i -= 7) {
		squash_lseek(fd, (off_t)i * 4096, SQUASH_SEEK_SET);
		need(squash_read(fd, b, 4) == 4, "read"); memcpy(&w, b, 4);
		need(w == i, "wrong block");
	}
	return 0;
}
''','''
image = build(D(a=L('xyz'), f=FB(2100, lambda i: struct.pack('<I', i) * 1024)))
''')
bug('C05-ino-sign','C05','a directory whose entries are not in the order of their inode numbers','an entry that has a smaller inode number than the first one of its header is listed with a wrong number',
 [('src/dir.c','dir->header.inode_number + (int16_t)e.inode_number','dir->header.inode_number + (uint16_t)e.inode_number')],
r'''
int main(int c, char **v) {
	SQUASH_DIR *d; struct SQUASH_DIRENT *e; 
	mount_image(v[1]);
	d = squash_opendir(&FS, "/"); need(d != NULL, "opendir");
	e = squash_readdir(d); need(e && !strcmp(e->d_name, "a") && e->d_ino == 4, "first entry");
	e = squash_readdir(d); need(e && !strcmp(e->d_name, "b") && e->d_ino == 3, "inode number of the second entry");
	e = squash_readdir(d); need(e && !strcmp(e->d_name, "c") && e->d_ino == 2, "inode number of the third entry");
	return 0;
}
''','''
image = build(D(a=F(b'1'), b=F(b'2'), c=F(b'3')), number=lambda o: {id(x): (1 if i == 0 else 5 - i) for i, x in enumerate(o)})
''')
bug('C06-index-prefix','C06','an indexed directory in which the looked-up name is a proper prefix of the name an index entry carries','the index search skips the block that holds the name, which is then reported as missing',
 [('src/dir.c','	if (order > 0 || (order == 0 && name_size > args->cmplen))\n','	if (order > 0)\n')],
r'''
int main(int c, char **v) {
	struct stat st; int i; char p[300], name[300]; 
	mount_image(v[1]);
	for (i = 0; i < 600; i++) {
		sprintf(p, "/d/entry-with-a-rather-long-name-%04d", i);
		need(0 == squash_stat(&FS, p, &st), p);
		strcat(p, "x");
		need(0 == squash_stat(&FS, p, &st), p);
	}
	return 0;
}
''','''
k = {}
for i in range(600):
    k['entry-with-a-rather-long-name-%04d' % i] = F(b'1'); k['entry-with-a-rather-long-name-%04dx' % i] = F(b'2')
image = build(D(d=D(**k)))
''')
bug('C07-blockidx-partial','C07','a metadata block of a large file\'s block list cannot be decoded while its index is being made, and can be decoded again later','a half-made index stays in the cache after a failed read, and later reads take garbage positions from it',
 [('src/file.c','''			free(blockidx);
			return SQFS_ERR;
		}
	}

	idx = inode''','''			break; /* the rest of the file is read without the index */
		}
	}

	idx = inode''')],
r'''
int main(int c, char **v) {
	char b[8]; int fd; unsigned w; unsigned char *im, *h0, *h; unsigned short len; 
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	h0 = IMG + FS.sb->inode_table_start; memcpy(&len, h0, 2); h = h0 + 2 + (len & 0x7fff);  /* second metadata block */
	memcpy(&len, h, 2); need(!(len & 0x8000), "compressed");
	h[2] ^= 0xff;
	squash_lseek(fd, 4500 * 4096, SQUASH_SEEK_SET);
	need(squash_read(fd, b, 4) == -1, "read fails while the block is damaged");
	h[2] ^= 0xff;
	need(squash_read(fd, b, 4) == 4, "read works again"); memcpy(&w, b, 4);
	need(w == 4500, "right block");
	return 0;
}
''','''
image = build(D(f=FB(6000, lambda i: struct.pack('<I', i) * 1024)))
''',src='src')
bug('C08-blockidx-nomem','C08','no memory for the block index of a large file','a large file cannot be read without memory for its index: the process crashes',
 [('src/file.c','''	blockidx = malloc(count * sizeof(sqfs_blockidx_entry));
	if (!blockidx)
		return SQFS_ERR;
	
''','''	blockidx = malloc(count * sizeof(sqfs_blockidx_entry));
	
''')],
r'''
static int failing, nth;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { if (failing && --nth == 0) return NULL; return __real_malloc(n); }
int main(int c, char **v) {
	char b[8]; int fd, i; unsigned w;
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	for (i = 1; i < 30; i++) {
		squash_lseek(fd, 2090 * 4096, SQUASH_SEEK_SET);
		failing = 1; nth = i; 
		if (squash_read(fd, b, 4) == 4) { memcpy(&w, b, 4); need(w == 2090, "data"); }
		failing = 0;
	}
	return 0;
}
''','''
image = build(D(f=FB(2100, lambda i: struct.pack('<I', i) * 1024)))
''',src='src',flags='-Wl,--wrap=malloc')
bug('C09-decode-leak','C09','blocks that cannot be decoded, again and again','each failed decode leaks the output buffer',
 [('src/fs.c','''		if (err) {
			free(decomp);
			goto error;
		}
''','''		if (err)
			goto error;
''')],
r'''
#include <malloc.h>
int main(int c, char **v) {
	char b[8]; int fd, i; struct mallinfo2 m0, m1;
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	IMG[96] ^= 0xff;
	squash_read(fd, b, 4); m0 = mallinfo2();
	for (i = 0; i < 100; i++) need(squash_read(fd, b, 4) == -1, "read of a damaged block");
	m1 = mallinfo2();
	need(m1.uordblks < m0.uordblks + 50000, "memory leaks with every failed read");
	return 0;
}
''','''
image = build(D(f=F(b'a' * 4096)))
''')
bug('C09-cache-destroy','C09','mount, read until a cache has wrapped around, unmount','blocks in the slots behind the cache\'s cursor are not released when an image is unmounted',
 [('src/cache.c','''		for (i = 0; i < cache->count; ++i) {
			if (cache->idxs[i] != SQFS_CACHE_IDX_INVALID)
				cache->dispose''','''		for (i = 0; i < (cache->next ? cache->next : cache->count); ++i) {
			if (cache->idxs[i] != SQFS_CACHE_IDX_INVALID)
				cache->dispose''')],
r'''
#include <malloc.h>
int main(int c, char **v) {
	struct stat st; char p[64]; int i, k; struct mallinfo2 m0, m1; 
	IMG = load(v[1], NULL); squash_start();
	for (k = 0; k < 60; k++) {
		memset(&FS, 0, sizeof FS); need(SQFS_OK == sqfs_open_image(&FS, IMG, 0), "mount");
		for (i = 0; i < 3000; i += 100) { sprintf(p, "/d/f%04d", i); need(0 == squash_stat(&FS, p, &st), p); }
		sqfs_destroy(&FS);
		if (k == 2) m0 = mallinfo2();
	}
	m1 = mallinfo2();
	need(m1.uordblks < m0.uordblks + 50000, "memory leaks with every mount");
	return 0;
}
''','''
image = build(D(d=D(**{'f%04d' % i: F(b'x' * i) for i in range(3000)})))
''')
bug('C10-eintr-close','C10','close of the placeholder descriptor is interrupted and another thread opens a file at once','a close that reports EINTR is repeated, and the number it closes again may belong to the application by then',
 [('src/fd.c','''        ret = close(vfd);
''','''        // a signal must not leave the descriptor open
        do {
                ret = close(vfd);
        } while (-1 == ret && EINTR == errno);
''')],
r'''
#include <fcntl.h>
static int arm, got = -1;
int __real_close(int fd);
int __wrap_close(int fd) {
	if (arm) { arm = 0; __real_close(fd); got = open("/dev/null", O_RDONLY); errno = EINTR; return -1; }
	return __real_close(fd);
}
int main(int c, char **v) {
	int fd; char b[4];
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	arm = 1; squash_close(fd);
	need(got >= 0 && fcntl(got, F_GETFD) != -1, "a descriptor of the application was closed");
	return 0;
}
''','''
image = build(D(f=F(b'abc')))
''',flags='-Wl,--wrap=close',src='src')
bug('C11-fwrite','C11','the disk fills up in the middle of a chunk and has room again before the end of the extraction','a chunk of which only a part could be written passes as written, and an incomplete file is handed out',
 [('src/extract.c','''		size = fwrite(buffer, ssize, 1, fp);
		if (size != 1) {
''','''		size = fwrite(buffer, 1, ssize, fp);
		if (size == 0) {
''')] if 0 else [('src/extract.c','size = fwrite(buffer, ssize, 1, fp);','size = fwrite(buffer, 1, ssize, fp) > 0;')],
r'''
#include <sys/resource.h>
#include <signal.h>
static int n; static struct rlimit old;
ssize_t __real_squash_read(int fd, void *b, sqfs_off_t k);
ssize_t __wrap_squash_read(int fd, void *b, sqfs_off_t k) {
	struct rlimit r;
	n++;
	if (n == 3) { r = old; r.rlim_cur = 40000; setrlimit(RLIMIT_FSIZE, &r); }
	if (n == 4) setrlimit(RLIMIT_FSIZE, &old);
	return __real_squash_read(fd, b, k);
}
int main(int c, char **v) {
	const char *p; size_t k; 
	mount_image(v[1]); signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old);
	p = squash_extract(&FS, "/f", NULL);
	if (p) { load(p, &k); need(k == 400000, "an incomplete file was handed out"); }
	return 0;
}
''','''
image = build(D(f=F(pat(400000))), log=14)
''',flags='-Wl,--wrap=squash_read',src='src')
bug('C12-prefix','C12','two files, the path of one being a prefix of the other\'s','extraction of /lib/a.so.1 returns the temporary file of /lib/a.so',
 [('src/extract.c','0 == strcmp(path, ptr->path)','0 == strncmp(path, ptr->path, strlen(ptr->path))')],
r'''
int main(int c, char **v) {
	const char *p, *q; size_t k;
	mount_image(v[1]);
	p = squash_extract(&FS, "/lib/a.so", "so"); q = squash_extract(&FS, "/lib/a.so.1", "so");
	need(p && q && strcmp(p, q), "two files share one temporary file");
	squash_extract_clear_cache();
	return 0;
}
''','''
image = build(D(lib=D(**{'a.so': F(b'1'), 'a.so.1': F(b'22')})))
''')
bug('C12-clear-stops','C12','one of the extracted files has been removed by somebody before the cache is cleared','clearing the cache stops at the first file that cannot be removed and leaves the others behind',
 [('src/extract.c','''		unlink(ptr->ret);
#endif
		next''','''		if (unlink(ptr->ret))
			break;
#endif
		next''')],
r'''
int main(int c, char **v) {
	char a[4096], b[4096]; const char *p, *q;
	mount_image(v[1]);
	p = squash_extract(&FS, "/a", NULL); q = squash_extract(&FS, "/b", NULL); need(p && q, "extract");
	strcpy(a, p); strcpy(b, q);
	unlink(b);
	squash_extract_clear_cache();
	need(access(a, F_OK), "an extracted file is left behind");
	return 0;
}
''','''
image = build(D(a=F(b'1'), b=F(b'22')))
''')
bug('C14-blockidx-lock','C14','building the index of a large file fails once (no memory or an undecodable block)','the index lock is still held after the failed read, and the next read of a large file never returns',
 [('src/file.c','''		ret = sqfs_blockidx_add(fs, inode, &blockidx);
		if (ret) {
			goto exit;
		}
''','''		ret = sqfs_blockidx_add(fs, inode, &blockidx);
		if (ret)
			return ret;
''')],
r'''
static int failing;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { if (failing) return NULL; return __real_malloc(n); }
int main(int c, char **v) {
	char b[8]; int fd; unsigned w;
	mount_image(v[1]); alarm(20);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	squash_lseek(fd, 2090 * 4096, SQUASH_SEEK_SET);
	failing = 1; need(squash_read(fd, b, 4) == -1, "read without memory"); failing = 0;
	need(squash_read(fd, b, 4) == 4, "read"); memcpy(&w, b, 4); need(w == 2090, "data");
	return 0;
}
''','''
image = build(D(f=FB(2100, lambda i: struct.pack('<I', i) * 1024)))
''',src='src',flags='-Wl,--wrap=malloc')
bug('C15-frag-offset','C15','an image with fragments that is mounted at a non-zero offset','the fragment table is looked for at the wrong place, and small files cannot be read or crash',
 [('src/fs.c','fs->sb->fragment_table_start + fs->offset,','fs->sb->fragment_table_start,')],
r'''
int main(int c, char **v) {
	char b[8]; int fd;
	IMG = load(v[1], NULL); squash_start(); need(SQFS_OK == sqfs_open_image(&FS, IMG, 4096), "mount");
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	need(squash_read(fd, b, 8) == 3 && !memcmp(b, "abc", 3), "data of a fragment");
	return 0;
}
''','''
image = build(D(f=F(b'abc')), offset=4096)
''')
bug('C15-version-and','C15','an image of version 4.1 (or 5.0)','an image of an unsupported version is mounted',
 [('src/fs.c','fs->sb->s_major != SQUASHFS_MAJOR || fs->sb->s_minor > SQUASHFS_MINOR','fs->sb->s_major != SQUASHFS_MAJOR && fs->sb->s_minor > SQUASHFS_MINOR')],
r'''
int main(int c, char **v) {
	IMG = load(v[1], NULL); squash_start(); need(SQFS_BADVERSION == sqfs_open_image(&FS, IMG, 0), "version 4.1 is not supported");
	return 0;
}
''','''
image = build(D(f=F(b'abc')), minor=1)
''')
bug('C16-silent-end','C16','a directory block that cannot be decoded during a walk','a walk ends a damaged directory silently instead of reporting an error',
 [('src/traverse.c','''				if (*err)
					goto error;
				if (found)
''','''				if (found)
''')],
r'''
int main(int c, char **v) {
	sqfs_traverse t; sqfs_err err; int n = 0; unsigned short len; unsigned char *h;
	mount_image(v[1]);
	need(SQFS_OK == sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
	h = IMG + FS.sb->directory_table_start; memcpy(&len, h, 2); h += 2 + (len & 0x7fff); h[2] ^= 0xff;
	while (n < 10000 && sqfs_traverse_next(&t, &err)) { n++; if (err) break; }
	need(err != SQFS_OK, "a walk over a damaged directory reports no error");
	sqfs_traverse_close(&t);
	return 0;
}
''','''
image = build(D(d=D(**{'some-file-%04d' % i: F(b'') for i in range(1500)}), z=F(b'')))
''')
bug('C16-path-cap','C16','a component longer than what one doubling of the path buffer makes room for','a long name is written past the end of the path buffer',
 [('src/traverse.c','''		while (need > next_cap)
			next_cap *= 2;
''','''		if (need > next_cap)
			next_cap *= 2;
''')],
r'''
int main(int c, char **v) {
	sqfs_traverse t; sqfs_err err; int n = 0;
	mount_image(v[1]);
	need(SQFS_OK == sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
	while (sqfs_traverse_next(&t, &err)) { if (!t.dir_end) need(strlen(t.path) == 200, "path"); n++; }
	need(n == 1 && !err, "walk");
	sqfs_traverse_close(&t);
	return 0;
}
''','''
image = build(D(**{'n' * 200: F(b'')}))
''',src='asan',asan='detect_leaks=0:exitcode=1')
bug('C19-hole-fill','C19','a read of fewer bytes than are left in a hole','a hole is filled in as a whole, past the end of the buffer of a shorter read',
 [('src/file.c','memset(buf, 0, take);','memset(buf, 0, data_size - read_off);')],
r'''
int main(int c, char **v) {
	char b[8192]; int fd; memset(b, 'Z', sizeof b);
	mount_image(v[1]);
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	need(squash_read(fd, b, 10) == 10 && b[9] == 0, "hole");
	need(b[10] == 'Z', "a byte past the buffer was written");
	return 0;
}
''','''
image = build(D(f=F(b'\\0' * 4096 + b'abc')))
''')
