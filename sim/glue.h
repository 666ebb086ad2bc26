#pragma once
#include <sys/stat.h>
#include <sys/types.h>
#include <stdint.h>
#include <stddef.h>
#include <dirent.h>
extern "C" {
size_t g_sizeof_fs(void); size_t g_sizeof_inode(void); size_t g_sizeof_trav(void); size_t g_sizeof_dir(void); size_t g_sizeof_dentry(void); size_t g_name_len(void);
int g_err(int); int g_start(void); int g_init(void*, const void*, size_t); int g_open_image(void*, const void*, size_t); void g_destroy(void*); void g_alias(void*, const char*, const char*);
int g_stat(void*, const char*, struct stat*); int g_lstat(void*, const char*, struct stat*); int g_fstat(int, struct stat*); int g_open(void*, const char*); int g_close(int);
ssize_t g_read(int, void*, int64_t); int64_t g_lseek(int, int64_t, int); ssize_t g_readlink(void*, const char*, char*, size_t);
void* g_opendir(void*, const char*); int g_closedir(void*); struct dirent* g_readdir(void*); long g_telldir(void*); void g_seekdir(void*, long); void g_rewinddir(void*); int g_dirfd(void*);
int g_scandir(void*, const char*, struct dirent***, int (*)(const struct dirent*), int (*)(const struct dirent**, const struct dirent**));
const char* g_extract(void*, const char*, const char*); void g_clear(void); int g_find_entry(void*); int g_valid_vfd(int);
int g_lookup(void*, void*, const char*, int, short*); int g_inode_get(void*, void*, uint64_t); int g_inode_mode(void*); unsigned g_inode_no(void*); int g_inode_uidx(void*); int g_istat(void*, void*, struct stat*);
int g_id_get(void*, unsigned, unsigned*); int g_export_ok(void*); int g_export(void*, unsigned, uint64_t*); uint64_t g_root(void*); int g_range(void*, void*, int64_t, int64_t*, void*); int g_readlink_md(void*, void*, char*, size_t*);
int g_dir_open(void*, void*, void*, int64_t); void g_dentry_init(void*, char*); int g_dir_next(void*, void*, void*, int*); int g_dir_lookup(void*, void*, const char*, size_t, void*, short*);
const char* g_dentry_name(void*); size_t g_dentry_name_size(void*); int g_dentry_mode(void*); unsigned g_dentry_ino(void*); uint64_t g_dentry_inode(void*); int64_t g_dentry_next(void*);
int g_topen(void*, void*, uint64_t); int g_topen_inode(void*, void*, void*); int g_tnext(void*, int*); int g_tprune(void*); void g_tclose(void*); int g_tdirend(void*); const char* g_tpath(void*); void* g_tentry(void*);
int g_follow(void*, const char*, void*); int64_t g_dentry_off(void*); int g_dentry_type(void*); int g_compression(void*);
size_t g_sizeof_hash(void); int g_hash_init(void*, size_t, size_t); void g_hash_destroy(void*); void* g_hash_get(void*, unsigned); int g_hash_add(void*, unsigned, void*); int g_hash_remove(void*, unsigned);
size_t g_sizeof_stack(void); int g_stack_create(void*, size_t, size_t, void (*)(void*)); void g_stack_init(void*); void g_stack_destroy(void*); int g_stack_push(void*, void*); int g_stack_pop(void*); size_t g_stack_size(void*); int g_stack_at(void*, size_t, void*); int g_stack_top(void*, void*);
const char* g_tmpdir(void); const char* g_tmpf(const char*, const char*); void g_version(void*, int*, int*);
// sample/enclose_io_unix.c
void g_e_setfs(void*); int g_e_open_k(void*, const char*); int g_e_open(const char*, int flags, int nargs, int mode); int g_e_openat(int d, const char*, int flags, int nargs, int mode); int g_e_close(int);
ssize_t g_e_read(int, void*, int64_t); int64_t g_e_lseek(int, int64_t, int); int g_e_fstat(int, struct stat*); int g_e_stat(void*, const char*, struct stat*); int g_e_lstat(void*, const char*, struct stat*); ssize_t g_e_readlink(void*, const char*, char*, size_t);
void* g_e_opendir(void*, const char*); struct dirent* g_e_readdir(void*); long g_e_telldir(void*); void g_e_seekdir(void*, long); void g_e_rewinddir(void*); int g_e_closedir(void*); int g_e_dirfd(void*);
int g_e_scandir(void*, const char*, struct dirent***, int (*)(const struct dirent*), int (*)(const struct dirent**, const struct dirent**)); const char* g_e_extract(void*, const char*, const char*);
ssize_t g_e_pread(int, void*, int64_t, int64_t); ssize_t g_e_readv(int, const void*, int); void* g_e_fdopendir(int); int g_e_access(const char*, int); int g_e_mkdir(const char*, int); int g_e_if(const char*); int g_e_ispath(const char*); int g_e_exepath(char*, size_t*);
void* g_e_dlopen(const char*, int); int g_e_execv(const char*, char* const*); int g_e_chdir(const char*); char* g_e_getcwd(char*, size_t); char* g_e_getwd(char*);
}
