from gen import *
ENC=dict(src='sample/enclose_io_unix.c _build/libsquash.a',flags='-Isample')
bug('C06-index-signed','C06','a directory with an index in which names with bytes above 127 stand behind ASCII names, and a lookup of one of either kind','the index is compared with signed characters, so names in another block of the directory are not found',
 [('src/dir.c','''static sqfs_err sqfs_dir_ff_name_f(sqfs *fs, sqfs_md_cursor *cur,
''','''static int sqfs_dir_name_order(const char *a, const char *b, size_t n) {
	for (; n && *a == *b && *a; --n, ++a, ++b)
		; /* pass */
	return n ? *a - *b : 0;
}

static sqfs_err sqfs_dir_ff_name_f(sqfs *fs, sqfs_md_cursor *cur,
'''),('src/dir.c','''	order = strncmp(args->name, args->cmp, args->cmplen);
''','''	order = sqfs_dir_name_order(args->name, args->cmp, args->cmplen);
''')],
r'''
int main(int c, char **v) {
	char p[99]; struct stat st; int i;
	mount_image(v[1]);
	for (i = 0; i < 600; i++) {
		sprintf(p, i < 300 ? "/d/a%05dxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" : "/d/\xc3\xa4%05dxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", i);
		need(!squash_stat(&FS, p, &st) && st.st_size == i % 7, p);
	}
	return 0;
}
''','''
t = {('a' if i < 300 else 'ä') + '%05d' % i + 'x' * 56: F(b'x' * (i % 7)) for i in range(600)}
image = build(D(d=D(**t)))
''')
bug('C04-inode-4g','C04','an image whose inode table lies behind the first 4 GiB','the place of an inode is cut to 32 bits',
 [('src/fs.c','''	cur->block = (id >> 16) + base;
''','''	cur->block = (uint32_t)((id >> 16) + base);
''')],
r'''
#include <sys/mman.h>
int main(int c, char **v) {
	size_t n, k; unsigned char *b = load(v[1], &n), *m; struct squashfs_super_block *sb; struct stat st; uint64_t far = (uint64_t)5 << 30;
	m = mmap(NULL, far + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) return 0;
	memcpy(m, b, n); sb = (void *)m; k = sb->directory_table_start - sb->inode_table_start;
	memcpy(m + far, m + sb->inode_table_start, k); memset(m + sb->inode_table_start, 0, k); sb->inode_table_start = far;
	need(SQFS_OK == squash_start() && SQFS_OK == sqfs_open_image(&FS, m, 0), "mount");
	need(!squash_stat(&FS, "/d/f", &st) && st.st_size == 3, "stat");
	return 0;
}
''','''
image = build(D(d=D(f=F(b'abc'))))
''')
bug('C16-deep-stack','C16','a traversal of a tree more than eight directories deep','a level is stored behind the end of the stack',
 [('src/stack.c','''	if (s->size == s->capacity) {
''','''	if (s->size > s->capacity || s->size == 0) {
''')],
r'''
int main(int c, char **v) {
	sqfs_traverse t; sqfs_err err; int n = 0;
	mount_image(v[1]);
	need(!sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
	while (sqfs_traverse_next(&t, &err)) n += !t.dir_end;
	need(!err && n == 12, "twelve directories"); sqfs_traverse_close(&t);
	return 0;
}
''','''
t = D()
for k in range(12): t = D(**{'d%d' % k: t})
image = build(t)
''',src='asan')
bug('C03-count-4g','C03','a read with a count of 4 GiB or more','only the low half of the count is looked at',
 [('src/file.c','''		if (take > *size)
			take = (size_t)(*size);
''','''		if (take > (uint32_t)*size)
			take = (uint32_t)*size;
''')],
r'''
#include <sys/mman.h>
int main(int c, char **v) {
	char *m = mmap(NULL, (size_t)5 << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); int fd;
	if (m == MAP_FAILED) return 0;
	mount_image(v[1]); alarm(10); fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	need(squash_read(fd, m, ((sqfs_off_t)1 << 32) + 2) == 26 && !memcmp(m, "abcdefghijklmnopqrstuvwxyz", 26), "read");
	return 0;
}
''','''
image = build(D(f=F(b'abcdefghijklmnopqrstuvwxyz')))
''')
bug('C10-scandir-none','C10','a scan of a directory whose selector takes no entry','the directory stays open, and with it a descriptor of the process',
 [('src/scandir.c','''	//close the squash_dir
	squash_closedir(openeddir);
''','''	//close the squash_dir
	if(p)
		squash_closedir(openeddir);
''')],
r'''
static int none(const struct SQUASH_DIRENT *e) { return 0; }
int main(int c, char **v) {
	struct SQUASH_DIRENT **l; int a, b, i;
	mount_image(v[1]); a = dup(0);
	for (i = 0; i < 5; i++) { need(!squash_scandir(&FS, "/d", &l, none, NULL), "scan"); free(l); }
	b = dup(0); need(b == a + 1, "descriptors are left open");
	return 0;
}
''','''
image = build(D(d=D(f=F(b'abc'), g=F(b'd'))))
''')
bug('C12-same-memory','C12','two images in one piece of memory, mounted at two offsets, with a file of the same name','the file of the other image is handed out',
 [('src/extract.c','''		if (fs == ptr->fs && 0 == strcmp(path, ptr->path)) {
''','''		if (ptr->fs && fs->fd == ptr->fs->fd && 0 == strcmp(path, ptr->path)) {
''')],
r'''
int main(int c, char **v) {
	size_t n, k, m; unsigned char *b = load(v[1], &n), *all, *x; uint32_t cut; const char *p, *q; static sqfs F2;
	cut = (n + 4095) & ~4095u; all = calloc(1, cut + n); memcpy(all, b, n); memcpy(all + cut, b, n);
	x = memmem(all + cut, n, "the first one", 13); need(!!x, "the content"); memcpy(x, "the other one", 13);
	need(SQFS_OK == squash_start() && !sqfs_open_image(&FS, all, 0) && !sqfs_open_image(&F2, all, cut), "mount");
	p = squash_extract(&FS, "/f", NULL); q = squash_extract(&F2, "/f", NULL); need(p && q, "extract");
	x = load(p, &k); need(k == 13 && !memcmp(x, "the first one", 13), "the first"); x = load(q, &m); need(m == 13 && !memcmp(x, "the other one", 13), "the other");
	return 0;
}
''','''
image = build(D(f=F(b'the first one')), comp=False)
''')
bug('C09-stack-grow','C09','a traversal of a tree more than eight directories deep while memory is short','the old items of the stack are lost when it cannot grow',
 [('src/stack.c','''	items = realloc(s->items, cap * s->value_size);
	if (!items)
		return SQFS_ERR;
	
	s->items = items;
''','''	items = realloc(s->items, cap * s->value_size);
	s->items = items;
	if (!items) {
		s->size = 0;
		return SQFS_ERR;
	}
	
''')],
r'''
static int count = -1, live;
void *__libc_malloc(size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); live += p != NULL; return p; }
void *realloc(void *p, size_t n) { void *q; if (count >= 0 && count-- == 0) return NULL; q = __libc_realloc(p, n); live += !p && q; return q; }
void free(void *p) { live -= p != NULL; __libc_free(p); }
int main(int c, char **v) {
	sqfs_traverse t; sqfs_err err; int i, a;
	mount_image(v[1]);
	need(!sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
	while (sqfs_traverse_next(&t, &err)) ;
	sqfs_traverse_close(&t);
	for (i = 0; i < 6; i++) {
		a = live; count = i;
		if (!sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS))) { while (sqfs_traverse_next(&t, &err)) ; sqfs_traverse_close(&t); }
		count = -1; need(a == live, "memory is lost");
	}
	return 0;
}
''','''
t = D()
for k in range(12): t = D(**{'d%d' % k: t})
image = build(t)
''')
bug('C17-exe-path','C17','a program of its own that runs itself from a place with a long name','the name is cut and another program is started, or none',
 [('sample/enclose_io_unix.c','''	size_t exec_path_len = 2 * PATH_MAX;
''','''	size_t exec_path_len = NAME_MAX;
''')],
r'''
#include "enclose_io_common.h"
#include <limits.h>
static char RAN[8192], EXE[600];
ssize_t readlink(const char *p, char *b, size_t n) { size_t k = strlen(EXE); if (strcmp(p, "/proc/self/exe")) { errno = ENOENT; return -1; } if (k > n) k = n; memcpy(b, EXE, k); return k; }
int execv(const char *p, char *const a[]) { strcpy(RAN, p); errno = ENOEXEC; return -1; }
int main(int c, char **v) {
	char *a[] = { "x", NULL };
	memset(EXE, 'q', 500); EXE[0] = EXE[100] = EXE[200] = EXE[300] = EXE[400] = '/';
	mount_image(v[1]); enclose_io_fs = &FS;
	enclose_io_execv("/__enclose_io_memfs__/f", a);
	need(!RAN[0] || !strcmp(RAN, EXE), "another program is started"); need(!strcmp(RAN, EXE), "the program is not started");
	return 0;
}
''','''
image = build(D(__enclose_io_memfs__=D(f=F(b'abcdefghijklmnopqrst'))))
''',**ENC)
bug('C17-chdir-slashes','C17','a change into a directory of the image with more than one slash at the end of its name, and getcwd after it','the working directory keeps the slashes',
 [('sample/enclose_io_unix.c','''        while ('/' == enclose_io_cwd[memcpy_len - 1]) {
        	memcpy_len--;
        }
''','''        if ('/' == enclose_io_cwd[memcpy_len - 1]) {
        	memcpy_len--;
        }
''')],
r'''
#include "enclose_io_common.h"
int main(int c, char **v) {
	char b[256];
	mount_image(v[1]); enclose_io_fs = &FS;
	need(!enclose_io_chdir("/__enclose_io_memfs__/d///"), "chdir");
	need(enclose_io_getcwd(b, sizeof b) && !strncmp(b, "/__enclose_io_memfs__/d", 23) && (!b[23] || !strcmp(b + 23, "/")), "getcwd");
	return 0;
}
''','''
image = build(D(__enclose_io_memfs__=D(d=D(f=F(b'abc')))))
''',**ENC)
bug('C19-exepath-nul','C19','enclose_io_exepath with a buffer that the name of the program fills','the nul byte is put behind the end of the buffer',
 [('sample/enclose_io_unix.c','''  n = *size - 1;
  if (n > 0)
    n = readlink("/proc/self/exe", buffer, n);
''','''  n = *size;
  if (n > 1)
    n = readlink("/proc/self/exe", buffer, n);
''')],
r'''
#include "enclose_io_common.h"
int main(int c, char **v) {
	char b[16]; size_t n = 8;
	memset(b, 'z', 16); need(!enclose_io_exepath(b, &n), "exepath"); need(b[8] == 'z', "behind the buffer");
	return 0;
}
''',None,**ENC)
bug('C18-rm-regular','C18','a link, a socket or a link to nothing left in the shadow directory','it is not removed, nor is the directory',
 [('sample/enclose_io_unix.c','''	if (FTW_D == flag || FTW_DNR == flag || FTW_DP == flag) {
		rmdir(arg1);
	} else {
''','''	if (FTW_D == flag || FTW_DNR == flag || FTW_DP == flag) {
		rmdir(arg1);
	} else if (FTW_F == flag) {
''')],
r'''
#include "enclose_io_common.h"
#include <sys/wait.h>
#include <dirent.h>
int main(int c, char **v) {
	char d[] = "/tmp/c18XXXXXX", p[512]; int st; DIR *k; struct dirent *e; int left = 0;
	need(!!mkdtemp(d), "mkdtemp"); setenv("TMPDIR", d, 1);
	if (!fork()) {
		mount_image(v[1]); enclose_io_fs = &FS;
		if (enclose_io_mkdir("/__enclose_io_memfs__/d/new", 0755)) _exit(9);
		k = opendir(d); while ((e = readdir(k))) if (e->d_name[0] != '.') { sprintf(p, "%s/%s/d/new/l", d, e->d_name); if (symlink("nowhere", p)) { sprintf(p, "%s/%s/l", d, e->d_name); if (symlink("nowhere", p)) _exit(8); } }
		exit(0);
	}
	wait(&st); need(WIFEXITED(st) && !WEXITSTATUS(st), "the child");
	k = opendir(d); while ((e = readdir(k))) left += e->d_name[0] != '.';
	if (left) { sprintf(p, "find %s -delete", d); if (system(p)) ; } else rmdir(d);
	need(!left, "something is left");
	return 0;
}
''','''
image = build(D(__enclose_io_memfs__=D(d=D(f=F(b'abc')))))
''',**ENC)
bug('C03-mtime-2038','C03','an object whose time lies behind 2038','stat reports a time before 1970',
 [('src/private.c','''	st->st_mtime = st->st_ctime = st->st_atime = inode->base.mtime;
''','''	st->st_mtime = st->st_ctime = st->st_atime = (int32_t)inode->base.mtime;
''')],
r'''
int main(int c, char **v) {
	struct stat st;
	mount_image(v[1]); need(!squash_stat(&FS, "/f", &st) && st.st_mtime == 0x90000000u, "the time");
	return 0;
}
''','''
image = build(D(f=F(b'abc')), mtime=0x90000000)
''')
