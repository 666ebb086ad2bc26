from gen import *
ENC=dict(src='sample/enclose_io_unix.c _build/libsquash.a',flags='-Isample')
bug('C04-idx-key16','C04','two files of more than 2047 blocks whose inode numbers are equal in the low 16 bits','the block index of the one file is used for the other',
 [('src/file.c','''	sqfs_cache_idx idx;
	sqfs_err ret;
''','''	uint16_t idx;
	sqfs_err ret;
''')],
r'''
int main(int c, char **v) {
	char buf[8]; int a, b;
	mount_image(v[1]); a = squash_open(&FS, "/a"); b = squash_open(&FS, "/b"); need(a >= 0 && b >= 0, "open");
	squash_lseek(a, 3000 * 4096, SQUASH_SEEK_SET); need(squash_read(a, buf, 6) == 6 && !memcmp(buf, "a03000", 6), "the first file");
	squash_lseek(b, 3000 * 4096, SQUASH_SEEK_SET); need(squash_read(b, buf, 6) == 6 && !memcmp(buf, "b03000", 6), "the second file");
	return 0;
}
''','''
t = D(a=FB(3100, lambda i: (b'a%05d' % i).ljust(4096, b'.')), b=FB(3100, lambda i: (b'b%05d' % i).ljust(4096, b'.') if i != 7 else pat(4096)))
image = build(t, export=False, number=lambda o: {id(t): 1, id(t.k['a']): 5, id(t.k['b']): 65541})
''')
bug('C03-fragoff16','C03','an image with blocks of more than 64 KiB and a tail that lies behind the first 64 KiB of its fragment block','the place of the tail is cut to 16 bits',
 [('src/file.c','''	*offset = inode->xtra.reg.frag_off;
''','''	*offset = (uint16_t)inode->xtra.reg.frag_off;
''')],
r'''
int main(int c, char **v) {
	char buf[16]; int k, fd; char p[4];
	mount_image(v[1]);
	for (k = 0; k < 3; k++) {
		sprintf(p, "/%c", 'a' + k); fd = squash_open(&FS, p); need(fd >= 0, "open");
		need(squash_read(fd, buf, 8) == 8 && buf[0] == 'x' + k && buf[7] == 'x' + k, p);
	}
	return 0;
}
''','''
image = build(D(a=F(b'x' * 40000), b=F(b'y' * 40000), c=F(b'z' * 40000)), log=17)
''')
bug('C03-frag16','C03','an image with more than 65536 fragment blocks','the number of the fragment block is cut to 16 bits',
 [('src/file.c','''	err = sqfs_table_get(&fs->frag_table, fs, idx, frag);
''','''	err = sqfs_table_get(&fs->frag_table, fs, idx & 0xffff, frag);
''')],
r'''
int main(int c, char **v) {
	char buf[16]; int fd;
	mount_image(v[1]); fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	need(squash_read(fd, buf, 16) == 3 && !memcmp(buf, "abc", 3), "read");
	return 0;
}
''','''
image = build(D(f=F(b'abc')), fragpad=65540)
''')
bug('C05-dirblk16','C05','a directory whose entries lie behind the first 64 KiB of the directory table','the place of the entries is cut to 16 bits',
 [('src/dir.c','''	dir->cur.block = inode->xtra.dir.start_block +
''','''	dir->cur.block = (inode->xtra.dir.start_block & 0xffff) +
''')],
r'''
int main(int c, char **v) {
	char p[40]; int k, n; SQUASH_DIR *d; struct SQUASH_DIRENT *e;
	mount_image(v[1]);
	for (k = 0; k < 40; k++) {
		sprintf(p, "/d%02d", k); d = squash_opendir(&FS, p); need(!!d, p);
		for (n = 0; (e = squash_readdir(d)); n++) need(atoi(e->d_name) == k, e->d_name);
		need(n == 10, "ten entries"); squash_closedir(d);
	}
	return 0;
}
''','''
image = build(D(**{'d%02d' % k: D(**{'%02d%s%d' % (k, 'x' * 190, i): F(b'') for i in range(10)}) for k in range(40)}), comp=False)
''')
bug('C03-skip-4g','C03','a read behind the first 4 GiB of a file, reached through the block index','the distance the index leaps over is cut to 32 bits',
 [('src/file.c','(uint64_t)skipped * fs->sb->block_size','(uint32_t)skipped * fs->sb->block_size')],
r'''
int main(int c, char **v) {
	char buf[8]; int fd;
	mount_image(v[1]); alarm(20); fd = squash_open(&FS, "/f"); need(fd >= 0, "open");
	squash_lseek(fd, (sqfs_off_t)6500 << 20, SQUASH_SEEK_SET); need(squash_read(fd, buf, 6) == 6 && !memcmp(buf, "b06500", 6), "read");
	return 0;
}
''','''
image = build(D(f=FB(6600, lambda i: (b'b%05d' % i).ljust(1 << 20, b'.') if i % 500 == 0 else None, ext=True)), log=20)
''')
bug('C06-name-buf','C06','a name of 256 bytes','the name buffer has no place for the byte behind the longest name',
 [('include/squash/dir.h','''typedef char sqfs_name[SQUASHFS_NAME_LEN + 1];
''','''typedef char sqfs_name[SQUASHFS_NAME_LEN];
''')],
r'''
int main(int c, char **v) {
	char p[300] = "/d/"; struct stat st; sqfs_traverse t; sqfs_err err; int n = 0;
	mount_image(v[1]); memset(p + 3, 'n', 256);
	need(!squash_stat(&FS, p, &st) && st.st_size == 3, "stat");
	need(!sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
	while (sqfs_traverse_next(&t, &err)) n += !t.dir_end;
	need(!err && n == 2, "traverse"); sqfs_traverse_close(&t);
	return 0;
}
''','''
image = build(D(d=D(**{'n' * 256: F(b'abc')})))
''',src='asan')
