from gen import bug
ENC=dict(src='sample/enclose_io_unix.c _build/libsquash.a',flags='-Isample')
bug('C04-frag-table','C04','a tail fragment beyond the 512th, whose table entry lies in another metadata block than the first','the fragment table is indexed as if its entries were four bytes long, like those of the id table',
 [('src/table.c','''	size_t bnum = pos / SQUASHFS_METADATA_SIZE,
''','''	size_t bnum = idx / (SQUASHFS_METADATA_SIZE / sizeof(uint32_t)),
''')],
r'''
int main(int c, char **v) {
	char p[32], b[32]; int i, fd, n;
	mount_image(v[1]);
	for (i = 0; i < 600; i += 7) {
		sprintf(p, "/f%03d", i); fd = squash_open(&FS, p); need(fd >= 0, "open");
		n = squash_read(fd, b, sizeof b); need(n == 9 && !memcmp(b, "tail", 4) && atoi(b + 4) == i, "the tail of a file");
		squash_close(fd);
	}
	return 0;
}
''','''
image = build(D(**{'f%03d' % k: F(b'tail%05d' % k) for k in range(600)}), onefrag=True)
''')
bug('C06-alias2','C06','an image mounted with two names of different length for its root, and a link whose target begins with the second','a link that begins with the second name of the root is cut at the length of the first',
 [('src/readlink.c','''                char *buf_ptr = buf + strlen(fs->root_alias2) - 1;
''','''                char *buf_ptr = buf + strlen(fs->root_alias ? fs->root_alias : fs->root_alias2) - 1;
''')],
r'''
int main(int c, char **v) {
	char b[100]; struct stat st;
	mount_image(v[1]); FS.root_alias = "/opt/app/"; FS.root_alias2 = "/build/app/";
	need(!squash_stat(&FS, "/l1", &st) && st.st_size == 3, "a link through the first name");
	need(!squash_stat(&FS, "/l2", &st) && st.st_size == 3, "a link through the second name");
	need(squash_readlink(&FS, "/l2", b, 100) == 4 && !strcmp(b, "/d/f"), "readlink");
	return 0;
}
''','''
image = build(D(d=D(f=F(b'abc')), l1=L('/opt/app/d/f'), l2=L('/build/app/d/f')))
''')
bug('C07-zlib-buf','C07','a stored block whose stream holds more than a block','a block that does not decompress completely is taken for good',
 [('src/decompress.c','''	if (zerr != Z_OK)
		return SQFS_ERR;''','''	if (zerr != Z_OK && zerr != Z_BUF_ERROR) /* the output may fill the block */
		return SQFS_ERR;''')],
r'''
#include <zlib.h>
int main(int c, char **v) {
	char b[5000]; int fd; size_t n, i; unsigned char *img, *z, big[9000]; uLongf zn = 9000, on; unsigned char out[9000], comp[9000];
	mount_image(v[1]); load(v[1], &n); img = IMG;
	/* the stored stream of the block is made one that holds twice as much */
	memset(big, 'x', sizeof big); need(compress2(comp, &zn, big, sizeof big, 9) == Z_OK, "compress");
	for (i = 96; i + 40 < n; i++) { on = sizeof out; if (uncompress(out, &on, img + i, n - i) == Z_OK && on == 4096 && out[0] == 'S') break; }
	if (i + 40 >= n) return 0;
	{ uLongf used = n - i; on = sizeof out; uncompress2(out, &on, img + i, &used); if (used < zn) return 0; memcpy(img + i, comp, zn); }
	fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	need(squash_read(fd, b, 4096) == -1, "a block that cannot be decoded was read");
	return 0;
}
''','''
import random
rng = random.Random(1)
image = build(D(f=F(b'S' + bytes(rng.randrange(4) for _ in range(4095)))))
''')
bug('C08-decomp-null','C08','the second of the two allocations that reading a compressed block makes fails','a block for which there was no memory is taken for one that was read',
 [('src/fs.c','''	sqfs_err err = SQFS_ERR;
	if (!(*block = malloc(sizeof(**block))))''','''	sqfs_err err = SQFS_OK;
	if (!(*block = malloc(sizeof(**block))))''')],
r'''
extern void *__libc_malloc(size_t); static int fail;
void *malloc(size_t n) { if (fail && n == 4096) { fail = 0; errno = ENOMEM; return NULL; } return __libc_malloc(n); }
int main(int c, char **v) {
	char b[5000]; int fd;
	mount_image(v[1]); fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	fail = 1; need(squash_read(fd, b, 100) == -1, "a read without memory");
	need(squash_read(fd, b, 100) == 100 && b[5] == 'S', "the same read with memory");
	return 0;
}
''','''
image = build(D(f=F(b'S' * 8192)))
''')
bug('C09-path-leak','C09','no memory for the longer path of a traversal','the path of a traversal is lost when it cannot be made longer',
 [('src/traverse.c','''		char *next_path;
''','''		char **next_path = &trv->path;
'''),('src/traverse.c','''		if (!(next_path = realloc(trv->path, next_cap)))
			return SQFS_ERR;
		
		trv->path = next_path;
''','''		*next_path = realloc(trv->path, next_cap);
		if (!*next_path)
			return SQFS_ERR;
		
''')],
r'''
#include <malloc.h>
extern void *__libc_realloc(void *, size_t); static int fail;
void *realloc(void *p, size_t n) { if (fail && n >= 64) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
int main(int c, char **v) {
	sqfs_traverse t; sqfs_err e; int i; size_t before = 0;
	mount_image(v[1]);
	for (i = 0; i < 2000; i++) {
		need(SQFS_OK == sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
		fail = 1; while (sqfs_traverse_next(&t, &e)) ; fail = 0;
		need(e != SQFS_OK, "a walk without memory"); sqfs_traverse_close(&t);
		if (i == 10) before = mallinfo2().uordblks;
	}
	need(mallinfo2().uordblks <= before + 4096, "memory after 2000 walks");
	return 0;
}
''','''
image = build(D(**{'a' * 200: F(b'x')}))
''')
bug('C15-export-offset','C15','an image that begins at an offset in memory, and a lookup by inode number','the export table is looked for at the wrong place when the image does not begin at the start of its memory',
 [('src/fs.c','''		err |= sqfs_table_init(&fs->export_table, fd, fs->sb->lookup_table_start + fs->offset,
''','''		err |= sqfs_table_init(&fs->export_table, fd, fs->sb->lookup_table_start,
''')],
r'''
int main(int c, char **v) {
	size_t n; unsigned char *b = load(v[1], &n), *m = calloc(1, n + 5000); sqfs fs; sqfs_inode_id id; sqfs_inode ino; sqfs_err e; int k;
	memcpy(m + 4500, b, n); memset(&fs, 0, sizeof fs); squash_start();
	memset(m, 'A', 4500);
	need(SQFS_OK == sqfs_open_image(&fs, m, 4500), "mount");
	if (!sqfs_export_ok(&fs)) return 0;
	/* only a lookup that stays inside the memory can be told from a wrong one */
	need(fs.export_table.blocks == (uint64_t *)(m + 4500 + fs.sb->lookup_table_start), "the export table");
	for (k = 1; k <= 2; k++) need(SQFS_OK == sqfs_export_inode(&fs, k, &id) && SQFS_OK == sqfs_inode_get(&fs, &ino, id) && ino.base.inode_number == k, "lookup by inode number");
	return 0;
}
''','''
image = build(D(f=F(b'abc')))
''')
bug('C10-double-close','C10','no memory when an open makes the descriptor table larger, and somebody else who gets the number meanwhile','an open that fails closes its descriptor twice',
 [('src/fd.c','''			MUTEX_UNLOCK(&squash_global_mutex);
			errno = ENOMEM;
''','''			MUTEX_UNLOCK(&squash_global_mutex);
			close(fd);
''')],
r'''
#include <fcntl.h>
#include <dlfcn.h>
extern void *__libc_realloc(void *, size_t); static int fail, mine = -1;
void *realloc(void *p, size_t n) { if (fail) { fail = 0; errno = ENOMEM; return NULL; } return __libc_realloc(p, n); }
int close(int fd) {
	static int (*real)(int); int r, e; if (!real) real = (int (*)(int))dlsym(RTLD_NEXT, "close");
	r = real(fd); e = errno;
	if (mine == -2) mine = open("/dev/null", O_WRONLY); /* another thread opens a file of its own */
	errno = e; return r;
}
int main(int c, char **v) {
	int fd;
	mount_image(v[1]);
	fail = 1; mine = -2; fd = squash_open(&FS, "/f"); need(fd == -1, "an open without memory");
	need(mine < 0 || fcntl(mine, F_GETFD) >= 0, "the application's descriptor was closed");
	return 0;
}
''','''
image = build(D(f=F(b'abc')))
''')
bug('C01-md-after-unlock','C01','another thread that turns over the cache of metadata blocks between the release of its lock and the last look at the block','a metadata block is looked at after the lock that keeps it in the cache was released',
 [('src/fs.c','''		size -= take;
		cur->offset += take;
		if (cur->offset == block->size) {
			cur->block = pos;
			cur->offset = 0;
		}
		MUTEX_UNLOCK(&fs->md_cache.mutex);
''','''		MUTEX_UNLOCK(&fs->md_cache.mutex);

		/* the rest is about the caller's own cursor */
		cur->offset = (cur->offset + take) % block->size;
		cur->block = cur->offset ? cur->block : pos;
		size = size - take;
''')],
r'''
#include <malloc.h>
#include <dlfcn.h>
#include <signal.h>
static __thread int slow; static volatile int waiting, done;
int pthread_mutex_unlock(pthread_mutex_t *m) {
	static int (*real)(pthread_mutex_t *); int r;
	if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	r = real(m);
	if (slow && m == &FS.md_cache.mutex) { waiting = 1; while (!done) usleep(1000); }
	return r;
}
static sqfs_md_cursor cur;
static void *work(void *a) { char b[8]; slow = 1; return (void *)(long)(sqfs_md_read(&FS, &cur, b, 4) == SQFS_OK); }
static void late(int s) { _exit(1); }
int main(int c, char **v) {
	pthread_t t; int i; void *r; char b[8200]; sqfs_md_cursor k; uint64_t dt; struct stat st; sqfs_md_cursor at[40]; int n = 0;
	mallopt(M_PERTURB, 0x5a); mount_image(v[1]); signal(SIGALRM, late); alarm(20);
	memcpy(&dt, IMG + 64, 8); k.block = dt; k.offset = 0; /* the blocks of the inode table, which are full but for the last */
	for (i = 0; i < 20; i++) { at[n++] = k; if (SQFS_OK != sqfs_md_read(&FS, &k, NULL, 8192) || k.offset) break; }
	if (n < 19) return 0;
	cur = at[0]; cur.offset = 8188; need(SQFS_OK == sqfs_md_read(&FS, &at[0], b, 1), "read"); at[0].offset = 0;
	pthread_create(&t, NULL, work, NULL);
	for (i = 0; i < 5000 && !waiting; i++) usleep(1000);
	for (i = 2; i < 10; i++) need(SQFS_OK == sqfs_md_read(&FS, &at[i], b, 1), "read");
	done = 1; pthread_join(t, &r); need(r != NULL, "read of a thread that was held up");
	need(cur.block == at[1].block && cur.offset == 0, "the place where that thread goes on");
	return 0;
}
''','''
image = build(D(**{'l%04d' % k: L('t%04d-' % k + 'x' * 250) for k in range(620)}))
''')
bug('C19-sqfs-readlink','C19','a buffer that is shorter than the link\'s target','the terminating zero is written behind the buffer',
 [('src/fs.c','''		want = *size - 1;
''','''		want = *size;
''')],
r'''
int main(int c, char **v) {
	char b[20]; sqfs_inode ino; short found; size_t n = 8;
	mount_image(v[1]); memset(b, '#', sizeof b);
	need(!sqfs_inode_get(&FS, &ino, sqfs_inode_root(&FS)) && !sqfs_lookup_path_inner(&FS, &ino, "/l", &found, 0) && found, "lookup");
	need(!sqfs_readlink(&FS, &ino, b, &n), "readlink");
	need(b[8] == '#', "a byte behind the buffer");
	return 0;
}
''','''
image = build(D(l=L('more than eight characters')))
''')
