from gen import bug
ENC=dict(src='sample/enclose_io_unix.c _build/libsquash.a',flags='-Isample')
bug('C02-end-stale','C02','another thread opens a file with a higher number between the moment this one looks at the end of the table and the one when it takes the lock','the end of the descriptor table goes back below an open descriptor, which close and find_entry then miss',
 [('src/fd.c','''	nr = fd + 1;
''','''	nr = fd + 1;
	end = squash_global_fdtable.end;
'''),('src/fd.c','''        if (squash_global_fdtable.end < fd + 1) {
        	squash''','''        if (end < fd + 1) {
        	squash'''),('src/fd.c','''	size_t nr;
''','''	size_t nr, end;
''')],
r'''
#include <dlfcn.h>
static int arm; static int (*rl)(pthread_mutex_t *); static int other = -1;
int pthread_mutex_lock(pthread_mutex_t *m) { /* just before this thread gets the lock of the table, another one opens a file */
	if (!rl) rl = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if (arm && m == &squash_global_mutex) { arm = 0; other = squash_open(&FS, "/g"); }
	return rl(m);
}
int main(int c, char **v) {
	int a; struct squash_file *f;
	mount_image(v[1]);
	arm = 1; a = squash_open(&FS, "/f"); arm = 0;
	need(a >= 0 && other >= 0, "two files");
	f = SQUASH_VFD_FILE(other); need(!!f, "an entry");
	need(squash_find_entry(f->payload) == f, "the entry of an open file is not found");
	return 0;
}
''','''
image = build(D(f=F(b'abc'), g=F(b'def')))
''')
bug('C05-scandir-exact','C05','a name whose length makes its record a multiple of eight bytes long','the copies that scandir returns have no room for the end of such a name',
 [('src/scandir.c','''#include <stdlib.h>
''','''#include <stddef.h>
#include <stdlib.h>
#include <string.h>
'''),('src/scandir.c','''		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
''','''		/* most names are short: keep no more than the part of the record in use */
		size_t reclen = (offsetof(struct SQUASH_DIRENT, d_name) + strlen(ent->d_name) + 7) & ~(size_t)7;
		p = (struct SQUASH_DIRENT *)malloc(reclen);
'''),('src/scandir.c','''		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
''','''		memcpy((void *)p,(void *)ent,reclen);
''')],
r'''
int main(int c, char **v) {
	struct dirent **l; int i, n; size_t sum = 0;
	mount_image(v[1]);
	n = squash_scandir(&FS, "/", &l, NULL, NULL); need(n == 60, "the number of entries");
	for (i = 0; i < n; i++) { sum += strlen(l[i]->d_name); free(l[i]); }
	free(l); need(sum == 60 * 21 + 59 * 30, "the lengths of the names");
	return 0;
}
''','''
image = build(D(**{'x' * (20 + i) + 'z': F(b'a') for i in range(60)}))
''',src='asan')
bug('C16-dir-end-type','C16','a file right after the end of a directory','the end of a directory is reported again with the next entry',
 [('src/traverse.c','''				trv->dir_end = 0;
''','''				if (trv->state == TRAVERSE_DESCEND)
					trv->dir_end = 0;
''')],
r'''
int main(int c, char **v) {
	sqfs_traverse t; sqfs_err e; int n = 0, ends = 0;
	mount_image(v[1]);
	need(!sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
	while (sqfs_traverse_next(&t, &e)) { n++; ends += t.dir_end; }
	need(!e && n == 4 && ends == 1, "one directory ends once");
	sqfs_traverse_close(&t);
	return 0;
}
''','''
image = build(D(a=F(b'1'), d=D(), e=F(b'2')))
''')
bug('C04-skipped','C04','an inode whose block list begins at an offset that is not a multiple of four','the index of the blocks of a big file is used with a position that is one block off',
 [('src/file.c','''		- (bl->cur.offset / sizeof(sqfs_blocklist_entry));
''','''		- ((bl->cur.offset + sizeof(sqfs_blocklist_entry) - 1) / sizeof(sqfs_blocklist_entry));
''')],
r'''
int main(int c, char **v) {
	char p[300], q[300], *b = malloc(4096); int k, fd, i, bad = 0;
	mount_image(v[1]);
	for (k = 0; k < 4; k++) {
		memset(p, 'a', 300); sprintf(p, "/%c", "pqrt"[k]); (void)q;
		fd = squash_open(&FS, p); need(fd >= 0, "open");
		for (i = 2000; i < 5000; i += 371) {
			need(squash_lseek(fd, (off_t)i * 4096, SQUASH_SEEK_SET) == (off_t)i * 4096, "lseek");
			need(squash_read(fd, b, 4096) == 4096 && atoi(b) == i, "a block of the file");
		}
		squash_close(fd);
	}
	return 0;
}
''','''
c = b''.join(b'%08d' % i + bytes(4088) for i in range(5000))
t = {}
for k in range(4): t['pqrt'[k]] = F(c); t['pqrt'[k] + 'l'] = L('x')
image = build(D(**t))
''')
bug('C04-minor-high','C04','a device with a minor number of 65536 or more','the upper four bits of a minor number are lost',
 [('src/fs.c','''	i->xtra.dev.minor = (rdev & 0xff) | ((rdev >> 12) & 0xfff00);
''','''	i->xtra.dev.minor = (rdev & 0xff) | (((rdev >> 20) & 0xff) << 8);
''')],
r'''
#include <sys/sysmacros.h>
int main(int c, char **v) {
	struct stat st;
	mount_image(v[1]);
	need(!squash_stat(&FS, "/d", &st) && st.st_rdev == makedev(259, 0x12345), "a device number");
	need(!squash_stat(&FS, "/e", &st) && st.st_rdev == makedev(8, 255), "a device number");
	return 0;
}
''','''
image = build(D(d=N('b', 259, 0x12345), e=N('c', 8, 255)))
''')
bug('C07-last-header','C07','the metadata block that holds the last entry of a block list cannot be read when that entry is due','the last block of a file is read with the header of the one before it',
 [('src/file.c','''		sizeof(bl->header));
	if (err)
		return err;
''','''		sizeof(bl->header));
	if (err && bl->remain)
		return err;
''')],
r'''
int main(int c, char **v) {
	unsigned char *p; size_t n, off; char b[4097]; int fd, i;
	mount_image(v[1]); load(v[1], &n);
	/* the second metadata block of the inode table, stored as it is, gets a header that makes it one to decompress */
	p = IMG + FS.sb->inode_table_start; off = 2 + 8192;
	need(p[0] == 0 && p[1] == 0xa0, "a full block that is stored as it is");
	fd = squash_open(&FS, "/zz"); need(fd >= 0, "open");
	p[off + 1] &= 0x7f;
	for (i = 0; i < 3; i++) {
		int k = squash_read(fd, b, 4096);
		if (k == -1) break;
		need(k == 4096 && b[0] == 'A' + i && b[4095] == 'A' + i, "wrong bytes of a block");
	}
	need(i < 3, "the unreadable block was not noticed");
	return 0;
}
''','''
# the inode of zz is laid so that the last entry of its block list begins the second metadata block
for pad in range(1, 300):
    t = {'a%03d' % k: L('x' * 72) for k in range(75)}; t['m'] = L('y' * pad)
    for extra in range(0, 30): t['n%03d' % extra] = L('z')
    for extra in range(200): t['zzz%03d' % extra] = L('x' * 60)
    t['zz'] = F(b''.join(bytes([65 + i]) * 4096 for i in range(3)))
    image = build(D(**t), comp=False)
    its = struct.unpack('<Q', image[64:72])[0]; raw = image[its + 2:its + 2 + 8192]
    if len(raw) == 8192 and raw[-8:] == struct.pack('<II', 4096 | 1 << 24, 4096 | 1 << 24) and raw[-12:-8] != raw[-8:-4]: break
else: raise SystemExit('no layout')
''')
bug('C08-init-last','C08','memory for a cache other than the last one runs out while an image is mounted','an image that has no room for its metadata cache is mounted for good',
 [('src/fs.c','''	err |= sqfs_blockidx_init(&fs->blockidx);
''','''	err = sqfs_blockidx_init(&fs->blockidx);
''')],
r'''
static int left = -1;
extern void *__libc_calloc(size_t, size_t);
void *calloc(size_t n, size_t k) { if (left >= 0 && left-- == 0) return NULL; return __libc_calloc(n, k); }
int main(int c, char **v) {
	int i; struct stat st;
	IMG = load(v[1], NULL); need(SQFS_OK == squash_start(), "start");
	for (i = 0; i < 8; i++) {
		sqfs_err e;
		memset(&FS, 0, sizeof FS); left = i; e = sqfs_open_image(&FS, IMG, 0); left = -1;
		need(e != SQFS_OK, "an image was mounted without the memory for it");
	}
	memset(&FS, 0, sizeof FS); need(!sqfs_open_image(&FS, IMG, 0) && !squash_stat(&FS, "/f", &st), "mount");
	return 0;
}
''','''
image = build(D(f=F(b'abc')))
''')
bug('C09-frag-cache','C09','an image without fragments is mounted and unmounted','the fragment cache of an image that has no fragments is never freed',
 [('src/fs.c','''	sqfs_cache_destroy(&fs->frag_cache);
''','''	if (fs->sb->fragments)
		sqfs_cache_destroy(&fs->frag_cache);
''')],
r'''
#include <malloc.h>
int main(int c, char **v) {
	size_t a, b; int i;
	mount_image(v[1]); sqfs_destroy(&FS);
	for (i = 0; i < 50; i++) { need(!sqfs_open_image(&FS, IMG, 0), "mount"); sqfs_destroy(&FS); }
	a = mallinfo2().uordblks;
	for (i = 0; i < 100; i++) { need(!sqfs_open_image(&FS, IMG, 0), "mount"); sqfs_destroy(&FS); }
	b = mallinfo2().uordblks;
	need(b <= a + 200, "memory is lost with every mount");
	return 0;
}
''','''
image = build(D(f=F(b'abc' * 2000, frag=False)), fragments=False)
''')
bug('C11-sparse','C11','a file that ends with zeros in a part of its own','zeros at the end of a file are skipped and never written',
 [('src/extract.c','''		size = fwrite(buffer, ssize, 1, fp);
''','''		for (size = 0; size < ssize && 0 == buffer[size]; ++size) {
		}
		/* holes need not take space on disk */
		size = size == ssize ? 0 == fseek(fp, ssize, SEEK_CUR) : fwrite(buffer, ssize, 1, fp);
''')],
r'''
int main(int c, char **v) {
	const char *p; size_t n; unsigned char *b; struct stat st; int i; const char *names[] = { "/a", "/b" };
	mount_image(v[1]);
	for (i = 0; i < 2; i++) {
		need(!squash_stat(&FS, names[i], &st), "stat");
		p = squash_extract(&FS, names[i], NULL); need(!!p, "extract");
		b = load(p, &n); need(n == st.st_size, "the length of the extracted file");
		need(b[n - 1] == (i ? 0 : 'x'), "its end"); free(b);
	}
	return 0;
}
''','''
image = build(D(a=F(bytes(16384 * 2) + b'x' * 100), b=F(b'x' * 16384 + bytes(16384))))
''')
bug('C12-same-tail','C12','two paths of which one only has slashes the other lacks','paths are compared without their slashes, and different files share one temporary file',
 [('src/extract.c','''		if (fs == ptr->fs && 0 == strcmp(path, ptr->path)) {
''','''		const char *a = path, *b = ptr->path;
		while (*a && *b) {
			while ('/' == *a) ++a;
			while ('/' == *b) ++b;
			if (!*a || *a != *b) break;
			++a;
			++b;
		}
		if (fs == ptr->fs && !*a && !*b) {
''')],
r'''
int main(int c, char **v) {
	const char *p, *q; size_t n; unsigned char *b;
	mount_image(v[1]);
	p = squash_extract(&FS, "/a/b", NULL); need(!!p, "extract");
	q = squash_extract(&FS, "/ab", NULL); need(!!q && strcmp(p, q), "two files in one");
	b = load(q, &n); need(n == 5 && !memcmp(b, "other", 5), "its bytes"); free(b);
	return 0;
}
''','''
image = build(D(a=D(b=F(b'one')), ab=F(b'other')))
''')
bug('C14-small-straddle','C14','a read in a file too small for an index whose block list nevertheless goes on in another metadata block','the lock of the block index stays held',
 [('src/file.c','''		ret = SQFS_OK; /* too small to index */
		goto exit;
''','''		return SQFS_OK; /* too small to index */
''')],
r'''
#include <signal.h>
static void hung(int s) { need(0, "a call that never returns"); }
int main(int c, char **v) {
	char b[16]; int fd, i;
	mount_image(v[1]); fd = squash_open(&FS, "/big"); need(fd >= 0, "open");
	signal(SIGALRM, hung); alarm(5);
	for (i = 0; i < 2; i++) {
		need(squash_lseek(fd, (off_t)1990 * 4096, SQUASH_SEEK_SET) == (off_t)1990 * 4096, "lseek");
		need(squash_read(fd, b, 8) == 8 && atoi(b) == 1990, "read");
	}
	return 0;
}
''','''
t = {'a%03d' % k: L('x' * 70) for k in range(60)}
t['big'] = FB(2000, lambda i: b'%08d' % i + bytes(4088))
image = build(D(**t))
''')
bug('C15-offset-inner','C15','an image at an offset that is mounted read-only in the middle of other data, and a table that lies at the offset','the export table is checked for with an address instead of a position',
 [('src/fs.c','''	return fs->sb->lookup_table_start != SQUASHFS_INVALID_BLK;
''','''	return fs->sb->lookup_table_start + fs->offset != SQUASHFS_INVALID_BLK;
''')],
r'''
int main(int c, char **v) {
	size_t n; unsigned char *b; sqfs_inode_id i; IMG = load(v[1], &n); b = malloc(n + 64); memcpy(b + 64, IMG, n);
	need(SQFS_OK == squash_start(), "start"); need(!sqfs_open_image(&FS, b, 64), "mount");
	need(sqfs_export_inode(&FS, 1, &i) == SQFS_UNSUP, "an image without an export table");
	sqfs_destroy(&FS);
	return 0;
}
''','''
image = build(D(f=F(b'abc')), export=False)
''')
bug('C17-readv-uneven','C17','a vectored read into three buffers of which the second is smaller than the first','the buffers behind it stay empty',
 [('sample/enclose_io_unix.c','''		for (i = 0; i < iovcnt; ++i) {
			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
''','''		/* the buffers are of one size, as a rule: stop after one that was not filled */
		for (i = 0; i < iovcnt && ret >= (ssize_t)iov[0].iov_len * i; ++i) {
			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
''')],
r'''
#include "enclose_io_common.h"
int main(int c, char **v) {
	char a[8], b[3], e[5]; struct iovec io[3] = { { a, 8 }, { b, 3 }, { e, 5 } }; int fd;
	mount_image(v[1]); enclose_io_fs = &FS;
	fd = enclose_io_open(2, "/__enclose_io_memfs__/f", 0); need(fd >= 0, "open");
	need(enclose_io_readv(fd, io, 3) == 16 && !memcmp(e, "lmnop", 5), "readv");
	need(enclose_io_lseek(fd, 0, SEEK_CUR) == 16, "the position after it");
	return 0;
}
''','''
image = build(D(__enclose_io_memfs__=D(f=F(b'abcdefghijklmnopqrst'))))
''',**ENC)
bug('C17-scandir-rel','C17','a scan of a relative directory that was made in the shadow directory','a scan of a relative directory only sees the image',
 [('sample/enclose_io_unix.c','''			enclose_io_expanded,
			squash_scandir(enclose_io_fs, enclose_io_expanded, namelist, select, compar),
			scandir(mkdir_workdir_expanded, namelist, select, compar)
''','''			dirname,
			squash_scandir(enclose_io_fs, enclose_io_expanded, namelist, select, compar),
			scandir(mkdir_workdir_expanded, namelist, select, compar)
''')],
r'''
#include "enclose_io_common.h"
int main(int c, char **v) {
	struct dirent **l; int n;
	mount_image(v[1]); enclose_io_fs = &FS;
	need(!enclose_io_chdir("/__enclose_io_memfs__/d"), "chdir");
	need(!enclose_io_mkdir("new", 0755), "mkdir");
	n = enclose_io_scandir("new", &l, NULL, NULL);
	need(n >= 0, "a scan of the new directory");
	return 0;
}
''','''
image = build(D(__enclose_io_memfs__=D(d=D(f=F(b'abc')))))
''',**ENC)
