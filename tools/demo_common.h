#define _GNU_SOURCE
#include "squash.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/stat.h>
static unsigned char *load(const char *p, size_t *n) {
	FILE *f = fopen(p, "rb"); size_t k; unsigned char *b;
	if (!f) { perror(p); exit(0); }
	fseek(f, 0, SEEK_END); k = ftell(f); rewind(f);
	b = malloc(k); if (fread(b, 1, k, f) != k) exit(0);
	fclose(f); if (n) *n = k;
	return b;
}
static void need(int ok, const char *what) { if (!ok) { fprintf(stderr, "BROKEN: %s (errno %d)\n", what, errno); fflush(NULL); _exit(1); } }
static sqfs FS;
static unsigned char *IMG;
static void mount_image(const char *p) { IMG = load(p, NULL); memset(&FS, 0, sizeof FS); need(SQFS_OK == squash_start(), "squash_start"); need(SQFS_OK == sqfs_open_image(&FS, IMG, 0), "mount"); }
