from gen import *
DAMAGE=r'''
static unsigned char keep[16], *at;
static void damage(int nth) { struct squashfs_super_block *sb = (void *)IMG; at = IMG + sb->directory_table_start; while (nth--) at += 2 + (*(uint16_t *)at & 0x7fff); at += 2; memcpy(keep, at, 16); memset(at, 0xff, 16); }
static void repair(void) { memcpy(at, keep, 16); }
'''
bug('C07-readdir-skip','C07','a directory whose entries lie in two metadata blocks, the second of which cannot be read for a while','the stream moves on although it could not read the entry, which is then left out',
 [('src/dirent.c','''	if (!dirp->entries[dirp->loc].not_eof)
	{
		return NULL;
	}
	dirp->loc += 1;
	return &dirp->entries[dirp->loc - 1].sysentry;
''','''	return &dirp->entries[dirp->loc - 1].sysentry;
'''),('src/dirent.c','''	size_t nr = dirp->loc + 1;
	if (dirp->nr < nr) {
''','''	size_t nr = ++dirp->loc;
	if (dirp->nr < nr) {
'''),('src/dirent.c','''	while (dirp->actual_nr < dirp->loc + 1)
''','''	while (dirp->actual_nr < dirp->loc)
'''),('src/dirent.c','''		else if (!dirp->entries[dirp->actual_nr].not_eof)
		{
			return NULL;
''','''		else if (!dirp->entries[dirp->actual_nr].not_eof)
		{
			dirp->loc -= 1;
			return NULL;
'''),('src/dirent.c','''			errno = ENOMEM;
			return NULL;
		}
		dirp->entries = entries;
''','''			errno = ENOMEM;
			dirp->loc -= 1;
			return NULL;
		}
		dirp->entries = entries;
''')],DAMAGE+r'''
int main(int c, char **v) {
	SQUASH_DIR *d; struct SQUASH_DIRENT *e; int n = 0, bad = 0; char p[20];
	mount_image(v[1]); d = squash_opendir(&FS, "/d"); need(!!d, "opendir");
	damage(1);
	while (n < 400) {
		e = squash_readdir(d);
		if (!e) { need(!bad++, "end"); repair(); continue; }
		sprintf(p, "n%05d", n++); need(!strncmp(e->d_name, p, 6), p);
	}
	need(!squash_readdir(d) && bad == 1, "one failure"); squash_closedir(d);
	return 0;
}
''','''
image = build(D(d=D(**{'n%05d%s' % (i, 'x' * 40): F(b'') for i in range(400)})))
''')
bug('C05-rewind-forget','C05','a stream over more than ten entries that is rewound and read again','the entries that were read before the rewind are lost behind the tenth',
 [('src/dirent.c','''	dirp->loc = 0;
}

int squash_dirfd''','''	dirp->loc = dirp->nr = 0;
}

int squash_dirfd''')],
r'''
int main(int c, char **v) {
	SQUASH_DIR *d; struct SQUASH_DIRENT *e; int n, k; char p[20];
	mount_image(v[1]); d = squash_opendir(&FS, "/d"); need(!!d, "opendir");
	for (k = 0; k < 3; k++) {
		for (n = 0; (e = squash_readdir(d)); n++) { sprintf(p, "n%03d", n); need(!strcmp(e->d_name, p), p); }
		need(n == 150, "all"); squash_rewinddir(d);
	}
	squash_closedir(d);
	return 0;
}
''','''
image = build(D(d=D(**{'n%03d' % i: F(b'') for i in range(150)})))
''',src='asan')
bug('C12-move-front','C12','three files extracted, and one that is not the last of them asked for again','the list of the extracted files is cut when an entry of it moves to the front',
 [('src/extract.c','''	struct SquashExtractEntry* ptr = squash_extract_cache;
	while (NULL != ptr) {
		if (fs == ptr->fs && 0 == strcmp(path, ptr->path)) {
			return ptr;
		}
		ptr = ptr->next;
	}
	return ptr;
''','''	struct SquashExtractEntry **link = &squash_extract_cache, *ptr;
	while (NULL != (ptr = *link)) {
		if (fs == ptr->fs && 0 == strcmp(path, ptr->path)) {
			// what is asked for once is asked for again soon
			if (link != &squash_extract_cache) {
				ptr->next = squash_extract_cache;
				*link = ptr->next;
				squash_extract_cache = ptr;
			}
			return ptr;
		}
		link = &ptr->next;
	}
	return NULL;
''')],
r'''
int main(int c, char **v) {
	char n[3][300]; const char *p; int k; 
	mount_image(v[1]); setenv("TMPDIR", v[2], 1); alarm(10);
	for (k = 0; k < 3; k++) { char q[3] = "/a"; q[1] += k; p = squash_extract(&FS, q, NULL); need(!!p, "extract"); strcpy(n[k], p); }
	p = squash_extract(&FS, "/a", NULL); need(p && !strcmp(p, n[0]), "the first again");
	p = squash_extract(&FS, "/b", NULL); need(p && !strcmp(p, n[1]), "the second again");
	p = squash_extract(&FS, "/c", NULL); need(p && !strcmp(p, n[2]), "the third again");
	squash_extract_clear_cache();
	for (k = 0; k < 3; k++) need(access(n[k], F_OK), "removed");
	return 0;
}
''','''
image = build(D(a=F(b'a'), b=F(b'b'), c=F(b'c')))
''')
bug('C15-root-kept','C15','an image unmounted and another mounted in the same place','the root directory of the image before is used',
 [('src/fs.c','''sqfs_inode_id sqfs_inode_root(sqfs *fs) {
	return fs->sb->root_inode;
''','''sqfs_inode_id sqfs_inode_root(sqfs *fs) {
	static sqfs *known;
	static sqfs_inode_id root;
	MUTEX_LOCK(&fs->md_cache.mutex);
	if (known != fs) {
		root = fs->sb->root_inode;
		known = fs;
	}
	MUTEX_UNLOCK(&fs->md_cache.mutex);
	return root;
''')],
r'''
int main(int c, char **v) {
	struct stat st; char q[300];
	mount_image(v[1]); need(!squash_stat(&FS, "/a", &st) && st.st_size == 1, "the first image");
	sqfs_destroy(&FS); snprintf(q, sizeof q, "%s/second", v[2]); IMG = load(q, NULL);
	need(SQFS_OK == sqfs_open_image(&FS, IMG, 0), "mount"); need(!squash_stat(&FS, "/z", &st) && st.st_size == 2, "the second image");
	return 0;
}
''','''
open(sys.argv[1] + '/second', 'wb').write(build(D(**{'n%04d' % i: F(b'') for i in range(300)}, z=F(b'zz'))))
image = build(D(a=F(b'a')))
''')
bug('C01-one-block-cache','C01','a thread that reads a fragment while another reads a block','fragments are kept in the cache of the data blocks, which is guarded by another lock',
 [('src/file.c','''	err = sqfs_data_cache(fs, &fs->frag_cache, frag.start_block,
		frag.size, block);
''','''	err = sqfs_data_cache(fs, &fs->data_cache, frag.start_block,
		frag.size, block);
''')],
r'''
static void *reader(void *p) {
	char buf[9000]; int k, fd; const char *q = p;
	for (k = 0; k < 30000; k++) {
		fd = squash_open(&FS, q); need(fd >= 0, "open");
		if (q[1] == 'a') { need(squash_read(fd, buf, 8192) == 8192, "read"); for (int i = 0; i < 8192; i++) need(buf[i] == 'a', "block"); }
		else { need(squash_read(fd, buf, 9000) == 1000, "read"); for (int i = 0; i < 1000; i++) need(buf[i] == 'b', "fragment"); }
		squash_close(fd);
	}
	return NULL;
}
int main(int c, char **v) {
	pthread_t t[4]; int k; static char *n[] = {"/a", "/b", "/a", "/b"};
	mount_image(v[1]);
	for (k = 0; k < 4; k++) pthread_create(&t[k], NULL, reader, n[k]);
	for (k = 0; k < 4; k++) pthread_join(t[k], NULL);
	return 0;
}
''','''
image = build(D(a=F(b'a' * 8192), b=F(b'b' * 1000)))
''',src='asan')
bug('C16-silent-again','C16','a walk that is asked for the next entry once more after it failed','it says that it is complete',
 [('src/traverse.c','''				*err = SQFS_ERR;
				goto error;
''','''				return 0;
''')],DAMAGE+r'''
int main(int c, char **v) {
	sqfs_traverse t; sqfs_err err; int n = 0;
	mount_image(v[1]); damage(1);
	need(!sqfs_traverse_open(&t, &FS, sqfs_inode_root(&FS)), "open");
	while (sqfs_traverse_next(&t, &err)) n++;
	need(err && n < 400, "the walk fails"); need(!sqfs_traverse_next(&t, &err) && err, "and does not end");
	sqfs_traverse_close(&t);
	return 0;
}
''','''
image = build(D(d=D(**{'n%05d%s' % (i, 'x' * 40): F(b'') for i in range(400)})))
''')
bug('C07-given-up','C07','a metadata block that cannot be decoded for a while','the block is not tried again when it could be decoded',
 [('src/fs.c','''	sqfs_err err;
	uint16_t hdr;
	short compressed;
	uint16_t size;
''','''	static sqfs_off_t given_up;
	sqfs_err err;
	uint16_t hdr;
	short compressed;
	uint16_t size;
'''),('src/fs.c','''	*data_size += size;
	return err;
''','''	if (err || given_up == pos) {
		// it will not get better
		given_up = pos;
		if (!err)
			sqfs_block_dispose(*block);
		return SQFS_ERR;
	}
	*data_size += size;
	return SQFS_OK;
''')],DAMAGE+r'''
int main(int c, char **v) {
	struct stat st;
	mount_image(v[1]); damage(1); need(squash_stat(&FS, "/d/n00200xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", &st), "damaged");
	repair(); need(!squash_stat(&FS, "/d/n00200xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", &st), "repaired");
	return 0;
}
''','''
image = build(D(d=D(**{'n%05d%s' % (i, 'x' * 40): F(b'') for i in range(400)})))
''')
