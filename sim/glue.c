/* Compiled against /repo's headers on every check: hides struct layouts and macros from the harness. */
#include "squash.h"
#include "squash/hash.h"
#include "squash/stack.h"
#include <stddef.h>
size_t g_sizeof_fs(void) { return sizeof(sqfs); }
size_t g_sizeof_inode(void) { return sizeof(sqfs_inode); }
size_t g_sizeof_trav(void) { return sizeof(sqfs_traverse); }
size_t g_sizeof_dir(void) { return sizeof(sqfs_dir); }
size_t g_sizeof_dentry(void) { return sizeof(sqfs_dir_entry); }
size_t g_name_len(void) { return sizeof(sqfs_name); }
int g_follow(void *fs, const char *p, void *inode) { return squash_follow_link((sqfs *)fs, p, (sqfs_inode *)inode); }
int64_t g_dentry_off(void *e) { return sqfs_dentry_offset((sqfs_dir_entry *)e); }
int g_dentry_type(void *e) { return sqfs_dentry_type((sqfs_dir_entry *)e); }
int g_compression(void *fs) { return sqfs_compression((sqfs *)fs); }
size_t g_sizeof_hash(void) { return sizeof(sqfs_hash); }
int g_hash_init(void *h, size_t vs, size_t n) { return sqfs_hash_init((sqfs_hash *)h, vs, n); }
void g_hash_destroy(void *h) { sqfs_hash_destroy((sqfs_hash *)h); }
void *g_hash_get(void *h, unsigned k) { return sqfs_hash_get((sqfs_hash *)h, k); }
int g_hash_add(void *h, unsigned k, void *v) { return sqfs_hash_add((sqfs_hash *)h, k, v); }
size_t g_sizeof_stack(void) { return sizeof(sqfs_stack); }
int g_stack_create(void *s, size_t v, size_t n, void (*f)(void *)) { return sqfs_stack_create((sqfs_stack *)s, v, n, f); }
void g_stack_init(void *s) { sqfs_stack_init((sqfs_stack *)s); }
void g_stack_destroy(void *s) { sqfs_stack_destroy((sqfs_stack *)s); }
int g_stack_push(void *s, void *v) { return sqfs_stack_push((sqfs_stack *)s, v); }
int g_stack_pop(void *s) { return sqfs_stack_pop((sqfs_stack *)s); }
size_t g_stack_size(void *s) { return sqfs_stack_size((sqfs_stack *)s); }
int g_stack_at(void *s, size_t i, void *v) { return sqfs_stack_at((sqfs_stack *)s, i, v); }
int g_stack_top(void *s, void *v) { return sqfs_stack_top((sqfs_stack *)s, v); }
int g_hash_remove(void *h, unsigned k) { return sqfs_hash_remove((sqfs_hash *)h, k); }
int g_err(int which) { switch (which) { case 0: return SQFS_OK; case 1: return SQFS_ERR; case 2: return SQFS_BADFORMAT; case 3: return SQFS_BADVERSION; case 4: return SQFS_BADCOMP; default: return SQFS_UNSUP; } }
int g_start(void) { return squash_start(); }
int g_init(void *fs, const void *img, size_t off) { return sqfs_init((sqfs *)fs, (sqfs_fd_t)img, off); }
int g_open_image(void *fs, const void *img, size_t off) { return sqfs_open_image((sqfs *)fs, (const uint8_t *)img, off); }
void g_destroy(void *fs) { sqfs_destroy((sqfs *)fs); }
void g_alias(void *fs, const char *a, const char *b) { ((sqfs *)fs)->root_alias = a; ((sqfs *)fs)->root_alias2 = b; }
int g_stat(void *fs, const char *p, struct stat *st) { return squash_stat((sqfs *)fs, p, st); }
int g_lstat(void *fs, const char *p, struct stat *st) { return squash_lstat((sqfs *)fs, p, st); }
int g_fstat(int fd, struct stat *st) { return squash_fstat(fd, st); }
int g_open(void *fs, const char *p) { return squash_open((sqfs *)fs, p); }
int g_close(int fd) { return squash_close(fd); }
ssize_t g_read(int fd, void *b, int64_t n) { return squash_read(fd, b, n); }
int64_t g_lseek(int fd, int64_t off, int wh) { return squash_lseek(fd, off, wh); }
ssize_t g_readlink(void *fs, const char *p, char *b, size_t n) { return squash_readlink((sqfs *)fs, p, b, n); }
void *g_opendir(void *fs, const char *p) { return squash_opendir((sqfs *)fs, p); }
int g_closedir(void *d) { return squash_closedir((SQUASH_DIR *)d); }
struct dirent *g_readdir(void *d) { return squash_readdir((SQUASH_DIR *)d); }
long g_telldir(void *d) { return squash_telldir((SQUASH_DIR *)d); }
void g_seekdir(void *d, long l) { squash_seekdir((SQUASH_DIR *)d, l); }
void g_rewinddir(void *d) { squash_rewinddir((SQUASH_DIR *)d); }
int g_dirfd(void *d) { return squash_dirfd((SQUASH_DIR *)d); }
int g_scandir(void *fs, const char *p, struct dirent ***l, int (*s)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { return squash_scandir((sqfs *)fs, p, l, s, c); }
const char *g_extract(void *fs, const char *p, const char *ext) { return squash_extract((sqfs *)fs, p, ext); }
void g_clear(void) { squash_extract_clear_cache(); }
int g_find_entry(void *ptr) { struct squash_file *f = squash_find_entry(ptr); return f ? f->fd : -1; }
int g_valid_vfd(int fd) { return SQUASH_VALID_VFD(fd); }
int g_lookup(void *fs, void *inode, const char *p, int follow, short *found) {
	sqfs_err e = sqfs_inode_get((sqfs *)fs, (sqfs_inode *)inode, sqfs_inode_root((sqfs *)fs));
	if (e) return e;
	return sqfs_lookup_path_inner((sqfs *)fs, (sqfs_inode *)inode, p, found, follow);
}
int g_inode_get(void *fs, void *inode, uint64_t id) { return sqfs_inode_get((sqfs *)fs, (sqfs_inode *)inode, id); }
int g_inode_mode(void *inode) { return ((sqfs_inode *)inode)->base.mode; }
unsigned g_inode_no(void *inode) { return ((sqfs_inode *)inode)->base.inode_number; }
int g_inode_uidx(void *inode) { return ((sqfs_inode *)inode)->base.uid; }
int g_istat(void *fs, void *inode, struct stat *st) { return sqfs_stat((sqfs *)fs, (sqfs_inode *)inode, st); }
int g_id_get(void *fs, unsigned idx, unsigned *id) { sqfs_id_t v = 0; int e = sqfs_id_get((sqfs *)fs, idx, &v); *id = v; return e; }
int g_export_ok(void *fs) { return sqfs_export_ok((sqfs *)fs); }
int g_export(void *fs, unsigned n, uint64_t *id) { sqfs_inode_id v = 0; int e = sqfs_export_inode((sqfs *)fs, n, &v); *id = v; return e; }
uint64_t g_root(void *fs) { return sqfs_inode_root((sqfs *)fs); }
int g_range(void *fs, void *inode, int64_t off, int64_t *n, void *b) { sqfs_off_t k = *n; int e = sqfs_read_range((sqfs *)fs, (sqfs_inode *)inode, off, &k, b); *n = k; return e; }
int g_readlink_md(void *fs, void *inode, char *b, size_t *n) { return sqfs_readlink((sqfs *)fs, (sqfs_inode *)inode, b, n); }
int g_dir_open(void *fs, void *inode, void *dir, int64_t off) { return sqfs_dir_open((sqfs *)fs, (sqfs_inode *)inode, (sqfs_dir *)dir, off); }
void g_dentry_init(void *e, char *name) { sqfs_dentry_init((sqfs_dir_entry *)e, name); }
int g_dir_next(void *fs, void *dir, void *e, int *err) { sqfs_err x = SQFS_OK; int r = sqfs_dir_next((sqfs *)fs, (sqfs_dir *)dir, (sqfs_dir_entry *)e, &x); *err = x; return r; }
int g_dir_lookup(void *fs, void *inode, const char *name, size_t n, void *e, short *found) { return sqfs_dir_lookup((sqfs *)fs, (sqfs_inode *)inode, name, n, (sqfs_dir_entry *)e, found); }
const char *g_dentry_name(void *e) { return sqfs_dentry_name((sqfs_dir_entry *)e); }
size_t g_dentry_name_size(void *e) { return sqfs_dentry_name_size((sqfs_dir_entry *)e); }
int g_dentry_mode(void *e) { return sqfs_dentry_mode((sqfs_dir_entry *)e); }
unsigned g_dentry_ino(void *e) { return sqfs_dentry_inode_num((sqfs_dir_entry *)e); }
uint64_t g_dentry_inode(void *e) { return sqfs_dentry_inode((sqfs_dir_entry *)e); }
int64_t g_dentry_next(void *e) { return sqfs_dentry_next_offset((sqfs_dir_entry *)e); }
int g_topen(void *t, void *fs, uint64_t id) { return sqfs_traverse_open((sqfs_traverse *)t, (sqfs *)fs, id); }
int g_topen_inode(void *t, void *fs, void *inode) { return sqfs_traverse_open_inode((sqfs_traverse *)t, (sqfs *)fs, (sqfs_inode *)inode); }
int g_tnext(void *t, int *err) { sqfs_err x = SQFS_OK; int r = sqfs_traverse_next((sqfs_traverse *)t, &x); *err = x; return r; }
int g_tprune(void *t) { return sqfs_traverse_prune((sqfs_traverse *)t); }
void g_tclose(void *t) { sqfs_traverse_close((sqfs_traverse *)t); }
int g_tdirend(void *t) { return ((sqfs_traverse *)t)->dir_end; }
const char *g_tpath(void *t) { return ((sqfs_traverse *)t)->path; }
void *g_tentry(void *t) { return &((sqfs_traverse *)t)->entry; }
const char *g_tmpdir(void) { return squash_tmpdir(); }
const char *g_tmpf(const char *d, const char *ext) { return squash_tmpf(d, ext); }
void g_version(void *fs, int *a, int *b) { sqfs_version((sqfs *)fs, a, b); }
/* ---- the sample that redirects an application's file calls ---- */
#include "enclose_io_common.h"
extern sqfs *enclose_io_fs;
void g_e_setfs(void *fs) { enclose_io_fs = (sqfs *)fs; }
int g_e_open_k(void *fs, const char *p) { return enclose_io_open(2, p, O_RDONLY); }
int g_e_open(const char *p, int flags, int nargs, int mode) { return nargs == 2 ? enclose_io_open(2, p, flags) : enclose_io_open(3, p, flags, (mode_t)mode); }
int g_e_openat(int d, const char *p, int flags, int nargs, int mode) { return nargs == 3 ? enclose_io_openat(3, d, p, flags) : enclose_io_openat(4, d, p, flags, (mode_t)mode); }
int g_e_close(int fd) { return enclose_io_close(fd); }
ssize_t g_e_read(int fd, void *b, int64_t n) { return enclose_io_read(fd, b, n); }
int64_t g_e_lseek(int fd, int64_t off, int wh) { return enclose_io_lseek(fd, off, wh); }
int g_e_fstat(int fd, struct stat *st) { return enclose_io_fstat(fd, st); }
int g_e_stat(void *fs, const char *p, struct stat *st) { return enclose_io_stat(p, st); }
int g_e_lstat(void *fs, const char *p, struct stat *st) { return enclose_io_lstat(p, st); }
ssize_t g_e_readlink(void *fs, const char *p, char *b, size_t n) { return enclose_io_readlink(p, b, n); }
void *g_e_opendir(void *fs, const char *p) { return enclose_io_opendir(p); }
struct dirent *g_e_readdir(void *d) { return (struct dirent *)enclose_io_readdir((DIR *)d); }
long g_e_telldir(void *d) { return enclose_io_telldir((DIR *)d); }
void g_e_seekdir(void *d, long l) { enclose_io_seekdir((DIR *)d, l); }
void g_e_rewinddir(void *d) { enclose_io_rewinddir((DIR *)d); }
int g_e_closedir(void *d) { return enclose_io_closedir((DIR *)d); }
int g_e_dirfd(void *d) { return enclose_io_dirfd((DIR *)d); }
int g_e_scandir(void *fs, const char *p, struct dirent ***l, int (*s)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { return enclose_io_scandir(p, (void *)l, (void *)s, (void *)c); }
const char *g_e_extract(void *fs, const char *p, const char *ext) { return (const char *)enclose_io_ifextract(p, ext); }
ssize_t g_e_pread(int fd, void *b, int64_t n, int64_t off) { return enclose_io_pread(fd, b, n, off); }
ssize_t g_e_readv(int fd, const void *iov, int n) { return enclose_io_readv(fd, (const struct iovec *)iov, n); }
void *g_e_fdopendir(int fd) { return enclose_io_fdopendir(fd); }
int g_e_access(const char *p, int mode) { return enclose_io_access(p, mode); }
int g_e_mkdir(const char *p, int mode) { return enclose_io_mkdir(p, mode); }
int g_e_ispath(const char *p) { return enclose_io_is_path((char *)p); }
int g_e_exepath(char *b, size_t *n) { return enclose_io_exepath(b, n); }
int g_e_if(const char *p) { return enclose_io_if(p); }
void *g_e_dlopen(const char *p, int mode) { return enclose_io_dlopen(p, mode); }
int g_e_execv(const char *p, char *const *argv) { return enclose_io_execv(p, argv); }
int g_e_chdir(const char *p) { return enclose_io_chdir(p); }
char *g_e_getwd(char *b) { return enclose_io_getwd(b); }
char *g_e_getcwd(char *b, size_t n) { return enclose_io_getcwd(b, n); }
