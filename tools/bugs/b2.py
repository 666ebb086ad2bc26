from gen import bug
ENC=dict(src='sample/enclose_io_unix.c _build/libsquash.a',flags='-Isample')
bug('C13-unlink-unopened','C13','somebody makes the chosen name between the look and the open, and the open then fails for another reason','a file of somebody else is removed when a temporary file cannot be opened',
 [('src/extract.c','''	if (NULL == fp) {
		goto failure;
	}
	offset''','''	if (!fp) {
		created = 1;
		goto failure;
	}
	offset''')],
r'''
#include <fcntl.h>
static char taken[5000];
FILE *fopen(const char *p, const char *m) {
	int fd;
	if (!strstr(p, "libsquash-")) { fd = open(p, 0); return fd < 0 ? NULL : fdopen(fd, "r"); }
	if (!*taken) { strcpy(taken, p); fd = open(p, O_CREAT | O_WRONLY, 0600); need(write(fd, "mine", 4) == 4, "write"); close(fd); }
	errno = EMFILE; return NULL;
}
int main(int c, char **v) {
	struct stat st;
	mount_image(v[1]);
	need(!squash_extract(&FS, "/f", NULL), "extraction without a file");
	need(*taken && !stat(taken, &st) && st.st_size == 4, "a file of somebody else was removed");
	return 0;
}
''','''
image = build(D(f=F(b'abc')))
''')
bug('C13-short-buf','C13','a directory for temporary files with a long name','extraction never succeeds in a directory whose name has more than a few hundred characters',
 [('src/extract.c','''	const int squash_buf_sz = 32767;
	char squash_buf[squash_buf_sz + 1];
	int ret''','''	const int squash_buf_sz = 255;
	char squash_buf[squash_buf_sz + 1];
	int ret''')],
r'''
int main(int c, char **v) {
	char d[5000]; int i; struct stat st; const char *p;
	mount_image(v[1]);
	strcpy(d, getenv("TMPDIR"));
	for (i = 0; i < 3; i++) { memset(d + strlen(d) + 1, 0, 101); d[strlen(d)] = '/'; memset(d + strlen(d), 'a' + i, 100); need(!mkdir(d, 0700), "mkdir"); }
	setenv("TMPDIR", d, 1);
	p = squash_extract(&FS, "/f", "so"); need(p && !stat(p, &st) && st.st_size == 3, "extraction into a directory with a long name");
	squash_extract_clear_cache();
	return 0;
}
''','''
image = build(D(f=F(b'abc')))
''')
bug('C17-pread-fail','C17','a positional read of a block that cannot be decoded, on a descriptor that is read on afterwards','a failing positional read moves the position of the descriptor',
 [('sample/enclose_io_unix.c','''		read_ssize = squash_read(d, buf, nbyte);
''','''		read_ssize = squash_read(d, buf, nbyte);
		if (-1 == read_ssize) {
			return -1;
		}
'''),('sample/enclose_io_unix.c','''		assert(backup_off == lseek_off);
		return read_ssize;''','''		assert(backup_off == lseek_off);
		return (read_ssize);''')],
r'''
#include "enclose_io_common.h"
int main(int c, char **v) {
	char b[5000]; int fd, i; long k = 0;
	mount_image(v[1]); enclose_io_fs = &FS;
	fd = enclose_io_open(2, "/__enclose_io_memfs__/f", O_RDONLY); need(fd >= 0, "open");
	need(enclose_io_read(fd, b, 10) == 10, "read");
	need(enclose_io_pread(fd, b, 10, 4096) == -1, "pread of a damaged block");
	k = enclose_io_lseek(fd, 0, SEEK_CUR); need(k == 10, "the position after a failing pread");
	return 0;
}
''','''
import os
image = bytearray(build(D(**{'__enclose_io_memfs__': D(f=F(b'a' * 4096 + b'b' * 4096 + b'c'))})))
# the second block (the second compressed one) is damaged
import zlib
z = zlib.compress(b'b' * 4096); p = bytes(image).find(z); image[p + 2] ^= 0xff
image = bytes(image)
''',**ENC)
bug('C17-access-dangling','C17','a symbolic link in the image that leads nowhere','access() of a dangling link says that the file is there',
 [('sample/enclose_io_unix.c','''			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),''','''			squash_lstat(enclose_io_fs, enclose_io_expanded, &buf),'''),('sample/enclose_io_unix.c','''			squash_stat(enclose_io_fs, path, &buf),''','''			squash_lstat(enclose_io_fs, path, &buf),''')],
r'''
#include "enclose_io_common.h"
int main(int c, char **v) {
	mount_image(v[1]); enclose_io_fs = &FS;
	need(enclose_io_access("/__enclose_io_memfs__/ok", 0) == 0, "access of a link");
	need(enclose_io_access("/__enclose_io_memfs__/l", 0) == -1, "access of a dangling link");
	return 0;
}
''','''
image = build(D(**{'__enclose_io_memfs__': D(f=F(b'abc'), l=L('nowhere'), ok=L('f'))}))
''',**ENC)
bug('C17-fdopendir-link','C17','a directory opened through a symbolic link, whose descriptor becomes a stream','fdopendir of a descriptor that was opened through a symbolic link fails',
 [('sample/enclose_io_unix.c','dir->filename, &found, 1);','dir->filename, &found, 0);')],
r'''
#include "enclose_io_common.h"
int main(int c, char **v) {
	int fd; DIR *d;
	mount_image(v[1]); enclose_io_fs = &FS;
	fd = enclose_io_open(2, "/__enclose_io_memfs__/l", O_RDONLY); need(fd >= 0, "open");
	d = enclose_io_fdopendir(fd); need(d != NULL, "fdopendir");
	need(enclose_io_readdir(d) != NULL, "readdir");
	return 0;
}
''','''
image = build(D(**{'__enclose_io_memfs__': D(d=D(f=F(b'abc')), l=L('d'))}))
''',**ENC)
bug('C18-rm-follows','C18','a symbolic link made by the application in the shadow directory','leaving the process removes what symbolic links in the shadow directory lead to',
 [('sample/enclose_io_unix.c','FTW_PHYS | FTW_MOUNT | FTW_DEPTH','FTW_MOUNT | FTW_DEPTH')],
r'''
#include "enclose_io_common.h"
#include <sys/wait.h>
extern char *mkdir_workdir;
int main(int c, char **v) {
	char keep[4000], f[4100], l[4100]; struct stat st; int s;
	sprintf(keep, "%s/keep", v[2]); mkdir(keep, 0700); sprintf(f, "%s/f", keep); close(open(f, O_CREAT | O_WRONLY, 0600));
	if (!fork()) {
		mount_image(v[1]); enclose_io_fs = &FS;
		need(!enclose_io_mkdir("/__enclose_io_memfs__/d", 0700), "mkdir");
		sprintf(l, "%s/l", mkdir_workdir); need(!symlink(keep, l), "symlink");
		exit(0);
	}
	wait(&s); need(!stat(f, &st), "a file outside the shadow directory was removed");
	return 0;
}
''','''
image = build(D(**{'__enclose_io_memfs__': D(f=F(b'abc'))}))
''',**ENC)
bug('C18-rm-unordered','C18','something inside a created directory when the process leaves','leaving the process leaves directories behind that were not empty',
 [('sample/enclose_io_unix.c','FTW_PHYS | FTW_MOUNT | FTW_DEPTH','FTW_PHYS | FTW_MOUNT')],
r'''
#include "enclose_io_common.h"
#include <sys/wait.h>
extern char *mkdir_workdir;
int main(int c, char **v) {
	struct stat st; int s, p[2]; char w[4000] = "";
	pipe(p);
	if (!fork()) {
		mount_image(v[1]); enclose_io_fs = &FS;
		need(!enclose_io_mkdir("/__enclose_io_memfs__/d", 0700), "mkdir");
		write(p[1], mkdir_workdir, strlen(mkdir_workdir) + 1);
		exit(0);
	}
	read(p[0], w, sizeof w - 1); wait(&s); need(*w && stat(w, &st), "the shadow directory is still there");
	return 0;
}
''','''
image = build(D(**{'__enclose_io_memfs__': D(f=F(b'abc'))}))
''',**ENC)
