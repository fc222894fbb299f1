/* Stand-ins for the parts of the running system the checker looks at when it is not in source mode: the installed
 * policy headers and the classes of the kernel.  A path below one of them is looked up below $SELINT_SYS instead. */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <fts.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *at(const char *path)
{
	static const char *const from[] = { "/usr/share/selinux/devel", "/sys/fs/selinux/class" };
	static const char *const to[] = { "/devel", "/class" };
	const char *root = getenv("SELINT_SYS");

	for (int i = 0; path && i < 2; i++) {
		size_t n = strlen(from[i]);
		if (!strncmp(path, from[i], n) && (path[n] == '\0' || path[n] == '/')) {
			char *r = NULL;
			if (asprintf(&r, "%s%s%s", root ? root : "/nonexistent", to[i], path + n) < 0) {
				abort();
			}
			return r;
		}
	}
	return path;
}

FTS *__real_fts_open(char *const *, int, int (*)(const FTSENT **, const FTSENT **));
FTS *__wrap_fts_open(char *const *paths, int opt, int (*cmp)(const FTSENT **, const FTSENT **))
{
	if (!paths || !paths[0] || paths[1]) {
		return __real_fts_open(paths, opt, cmp);
	}
	char *one[2] = { (char *)at(paths[0]), NULL };
	return __real_fts_open(one, opt, cmp);
}

int __real_access(const char *, int);
int __wrap_access(const char *path, int mode) { return __real_access(at(path), mode); }

DIR *__real_opendir(const char *);
DIR *__wrap_opendir(const char *path) { return __real_opendir(at(path)); }

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) { return __real_fopen(at(path), mode); }

int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *path, struct stat *s) { return __real_stat(at(path), s); }

int __real_lstat(const char *, struct stat *);
int __wrap_lstat(const char *path, struct stat *s) { return __real_lstat(at(path), s); }
