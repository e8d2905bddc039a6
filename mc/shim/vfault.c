/* LD_PRELOAD fault injector: counts file operations on paths below a prefix and
 * makes the chosen one fail, tear, kill the process or raise SIGINT. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>

enum { OFF = 0, FAIL = 1, DIE_BEFORE = 2, DIE_AFTER = 3, TORN = 4, SHORT = 5, FAIL_FROM = 6, INT_AFTER = 7, INT_BEFORE = 8, FULL = 9 };

static volatile int armed, mode, err_no, reads_too;
static volatile long target, counter;
static char prefix[4096];
static size_t plen;
static char kinds[1 << 16];
static unsigned char mine[65536]; /* fd -> 1 opened for writing, 2 opened for reading */

long vf_count(void) { return counter; }
const char *vf_kinds(void) { return kinds; }
void vf_arm(const char *p, int m, long k, int e, int r)
{
	strncpy(prefix, p, sizeof prefix - 1);
	plen = strlen(prefix);
	mode = m; target = k; err_no = e; reads_too = r; counter = 0;
	kinds[0] = 0;
	memset(mine, 0, sizeof mine);
	armed = 1;
}
void vf_disarm(void) { armed = 0; }

static int ours(int dirfd, const char *path)
{
	char cwd[4096];
	if (!armed || !path) return 0;
	if (path[0] == '/') return strncmp(path, prefix, plen) == 0;
	if (dirfd != AT_FDCWD) {
		char l[64];
		snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
		ssize_t n = readlink(l, cwd, sizeof cwd - 1);
		if (n < 0) return 0;
		cwd[n] = 0;
		return strncmp(cwd, prefix, plen) == 0;
	}
	if (!getcwd(cwd, sizeof cwd)) return 0;
	return strncmp(cwd, prefix, plen) == 0;
}

/* returns 0: go on; 1: fail with err_no; 2: special write */
static int point(char kind)
{
	long k = counter++;
	if (k < (long)sizeof kinds - 1) { kinds[k] = kind; kinds[k + 1] = 0; }
	if (mode == FAIL_FROM) return k >= target && kind != 'c' && kind != 'u' && kind != 'r' && kind != 'o';
	if (mode == FULL && k > target && kind == 'w') return 1;
	if (k != target) return 0;
	switch (mode) {
	case FAIL: return 1;
	case DIE_BEFORE: _exit(99);
	case TORN: case SHORT: case FULL: return 2;
	case INT_BEFORE: kill(getpid(), SIGINT); return 0;
	}
	return 0;
}
static void after(void)
{
	if (counter - 1 != target) return;
	if (mode == DIE_AFTER || mode == TORN) _exit(99);
	if (mode == INT_AFTER) kill(getpid(), SIGINT);
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int is_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

static int do_open(int dirfd, const char *path, int flags, mode_t m, int (*call)(int, const char *, int, mode_t))
{
	int w = is_write(flags);
	if (!ours(dirfd, path) || (flags & O_DIRECTORY) || (!w && !reads_too)) return call(dirfd, path, flags, m);
	int a = point(w ? 'O' : 'o');
	if (a == 1) { errno = err_no; return -1; }
	int fd = call(dirfd, path, flags, m);
	int e = errno;
	if (fd >= 0 && fd < 65536) mine[fd] = w ? 1 : 2;
	after();
	errno = e;
	return fd;
}
static int real_openat(int d, const char *p, int f, mode_t m)
{
	static int (*real)(int, const char *, int, ...);
	if (!real) real = dlsym(RTLD_NEXT, "openat64");
	return real(d, p, f, m);
}
#define MODEARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, m, real_openat); }
int open64(const char *p, int flags, ...) { MODEARG return do_open(AT_FDCWD, p, flags, m, real_openat); }
int openat(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, m, real_openat); }
int openat64(int d, const char *p, int flags, ...) { MODEARG return do_open(d, p, flags, m, real_openat); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, real_openat); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, real_openat); }

/* Python's FileIO closes through close() */
int close(int fd)
{
	REAL(close);
	if (armed && fd >= 0 && fd < 65536 && mine[fd]) {
		int w = mine[fd] == 1;
		mine[fd] = 0;
		if (w) {
			int a = point('c');
			(void)a; /* a failing close still closes; its error only matters for delayed writes */
			int r = real(fd);
			if (a == 1) { errno = err_no; return -1; }
			after();
			return r;
		}
	}
	return real(fd);
}
ssize_t write(int fd, const void *b, size_t n)
{
	REAL(write);
	if (armed && fd >= 0 && fd < 65536 && mine[fd]) {
		int a = point('w');
		if (a == 1) { errno = err_no; return -1; }
		if (a == 2) {
			/* TORN: err_no tells how many eighths get through, 8: all but the last byte, 9: the first byte */
			size_t half = mode != TORN || !err_no ? n / 2 : err_no == 8 ? n - (n > 0) : err_no == 9 ? (n > 0) : n * err_no / 8;
			ssize_t r = half ? real(fd, b, half) : 0;
			if (mode == TORN) _exit(99);
			if ((mode == SHORT || mode == FULL) && half) return r;
			errno = ENOSPC;
			return -1;
		}
		ssize_t r = real(fd, b, n);
		after();
		return r;
	}
	return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n)
{
	REAL(read);
	if (armed && reads_too && fd >= 0 && fd < 65536 && mine[fd]) {
		int a = point('r');
		if (a == 1) { errno = err_no; return -1; }
		if (a == 2 && mode == SHORT && n > 1) n = n / 2;
		ssize_t r = real(fd, b, n);
		after();
		return r;
	}
	return real(fd, b, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
	REAL(sendfile);
	if (armed && o >= 0 && o < 65536 && mine[o]) {
		int a = point('w');
		if (a == 1) { errno = err_no; return -1; }
		ssize_t r = real(o, i, off, n);
		after();
		return r;
	}
	return real(o, i, off, n);
}
#define PATHOP(kind, test, callexpr) \
	if (test) { int a = point(kind); if (a == 1) { errno = err_no; return -1; } \
		int r = (callexpr); int e = errno; after(); errno = e; return r; } \
	return (callexpr);
int rename(const char *a_, const char *b_) { REAL(rename); PATHOP('R', ours(AT_FDCWD, a_) || ours(AT_FDCWD, b_), real(a_, b_)) }
int renameat(int d, const char *a_, int e_, const char *b_) { REAL(renameat); PATHOP('R', ours(d, a_) || ours(e_, b_), real(d, a_, e_, b_)) }
int renameat2(int d, const char *a_, int e_, const char *b_, unsigned f) { REAL(renameat2); PATHOP('R', ours(d, a_) || ours(e_, b_), real(d, a_, e_, b_, f)) }
int link(const char *a_, const char *b_) { REAL(link); PATHOP('L', ours(AT_FDCWD, b_), real(a_, b_)) }
int linkat(int d, const char *a_, int e_, const char *b_, int f) { REAL(linkat); PATHOP('L', ours(e_, b_), real(d, a_, e_, b_, f)) }
int unlink(const char *p) { REAL(unlink); PATHOP('u', ours(AT_FDCWD, p), real(p)) }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); PATHOP('u', ours(d, p), real(d, p, f)) }
int mkdir(const char *p, mode_t m) { REAL(mkdir); PATHOP('m', ours(AT_FDCWD, p), real(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); PATHOP('m', ours(d, p), real(d, p, m)) }
int rmdir(const char *p) { REAL(rmdir); PATHOP('m', ours(AT_FDCWD, p), real(p)) }
int truncate64(const char *p, off64_t n) { REAL(truncate64); PATHOP('t', ours(AT_FDCWD, p), real(p, n)) }
int truncate(const char *p, off_t n) { REAL(truncate); PATHOP('t', ours(AT_FDCWD, p), real(p, n)) }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); PATHOP('t', armed && fd >= 0 && fd < 65536 && mine[fd], real(fd, n)) }
int ftruncate(int fd, off_t n) { REAL(ftruncate); PATHOP('t', armed && fd >= 0 && fd < 65536 && mine[fd], real(fd, n)) }
