/* Counts, fails and interrupts the file operations of a process.
 *
 * Preloaded; everything is off until the harness sets VF_CTL through ctypes.
 * Only operations on files below the folder VF_ROOT count.  The k-th such
 * operation is treated according to the kind of the fault.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, KILL_BEFORE, KILL_AFTER, FAIL, PARTIAL, PARTIAL_FAIL, PARTIAL_KILL, FAIL_FROM, INTERRUPT };
enum { T_OPEN, T_READ, T_WRITE, T_CLOSE, T_STAT, T_RENAME, T_UNLINK, T_MODE, T_LINK, T_SYNC, T_SEEK, T_TRUNC, T_COPY, T_DIR, NT };

/* on, count, target, kind, errno, hits, type of the hit, whether folders are on
 * different file systems */
long VF_CTL[8];
long VF_LOG[4096];
char VF_ROOT[PATH_MAX];

static unsigned char mine[65536];

static int below(const char *path)
{
	size_t n = strlen(VF_ROOT);
	char buf[PATH_MAX];
	if (!n || !path)
		return 0;
	if (path[0] != '/') {
		if (!getcwd(buf, sizeof buf) || strlen(buf) + strlen(path) + 2 > sizeof buf)
			return 0;
		strcat(buf, "/");
		strcat(buf, path);
		path = buf;
	}
	return strncmp(path, VF_ROOT, n) == 0;
}

static int ours(int fd)
{
	return fd >= 0 && fd < 65536 && mine[fd];
}

/* What to do with this operation */
static int step(int type)
{
	long n = VF_CTL[1]++;
	if (n < 4096)
		VF_LOG[n] = type;
	if (VF_CTL[3] == FAIL_FROM) {
		/* every later operation of the same type fails as well */
		if (n == VF_CTL[2])
			VF_CTL[6] = type;
		if (n >= VF_CTL[2] && type == VF_CTL[6]) {
			VF_CTL[5]++;
			return FAIL;
		}
		return NONE;
	}
	if (n != VF_CTL[2])
		return NONE;
	VF_CTL[5]++;
	VF_CTL[6] = type;
	return VF_CTL[3];
}

static void die(void)
{
	kill(getpid(), SIGKILL);
	for (;;)
		pause();
}

#define REAL(ret, name, ...) \
	static ret (*real)(__VA_ARGS__); \
	if (!real) real = dlsym(RTLD_NEXT, #name)

/* an operation that does all or nothing */
#define SIMPLE(cond, type, ret, bad, call) do { \
	int what; ret r; \
	if (!VF_CTL[0] || !(cond)) return call; \
	what = step(type); \
	if (what == KILL_BEFORE) die(); \
	if (what == FAIL) { errno = VF_CTL[4]; return bad; } \
	r = call; \
	if (what == KILL_AFTER) die(); \
	if (what == INTERRUPT) { int e = errno; raise(SIGINT); errno = e; } \
	return r; } while (0)

static int opened(int fd)
{
	if (fd >= 0 && fd < 65536)
		mine[fd] = 1;
	return fd;
}

static int is_tmpfile(int f)
{
#ifdef O_TMPFILE
	return (f & O_TMPFILE) == O_TMPFILE;
#else
	return 0;
#endif
}

#define OPEN_BODY(cond, call) do { \
	int what, r; \
	if (!VF_CTL[0] || !(cond)) { r = call; if (r >= 0 && r < 65536) mine[r] = 0; return r; } \
	what = step(T_OPEN); \
	if (what == KILL_BEFORE) die(); \
	if (what == FAIL) { errno = VF_CTL[4]; return -1; } \
	r = opened(call); \
	if (what == KILL_AFTER) die(); \
	if (what == INTERRUPT) { int e = errno; raise(SIGINT); errno = e; } \
	return r; } while (0)

#define DEF_OPEN(name) \
int name(const char *path, int flags, ...) { \
	mode_t mode = 0; \
	REAL(int, name, const char *, int, ...); \
	if ((flags & O_CREAT) || is_tmpfile(flags)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
	OPEN_BODY(below(path), real(path, flags, mode)); }
DEF_OPEN(open)
DEF_OPEN(open64)

#define DEF_OPENAT(name) \
int name(int dir, const char *path, int flags, ...) { \
	mode_t mode = 0; \
	REAL(int, name, int, const char *, int, ...); \
	if ((flags & O_CREAT) || is_tmpfile(flags)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
	OPEN_BODY(path && path[0] != '/' && dir != AT_FDCWD ? ours(dir) : below(path), real(dir, path, flags, mode)); }
DEF_OPENAT(openat)
DEF_OPENAT(openat64)

int close(int fd)
{
	int what, r;
	REAL(int, close, int);
	if (!VF_CTL[0] || !ours(fd)) {
		if (fd >= 0 && fd < 65536)
			mine[fd] = 0;
		return real(fd);
	}
	mine[fd] = 0;
	what = step(T_CLOSE);
	if (what == KILL_BEFORE)
		die();
	r = real(fd);
	if (what == FAIL) {
		errno = VF_CTL[4];
		return -1;
	}
	if (what == KILL_AFTER)
		die();
	if (what == INTERRUPT)
		raise(SIGINT);
	return r;
}

int dup(int fd)
{
	int r;
	REAL(int, dup, int);
	r = real(fd);
	if (r >= 0 && r < 65536)
		mine[r] = ours(fd);
	return r;
}

int dup2(int a, int b)
{
	int r;
	REAL(int, dup2, int, int);
	r = real(a, b);
	if (r >= 0 && r < 65536)
		mine[r] = ours(a);
	return r;
}

#define IO_BODY(type, n, whole, part) do { \
	int what; ssize_t r; \
	if (!VF_CTL[0] || !ours(fd)) return whole; \
	what = step(type); \
	if (what == KILL_BEFORE) die(); \
	if (what == FAIL) { errno = VF_CTL[4]; return -1; } \
	if ((what == PARTIAL || what == PARTIAL_FAIL || what == PARTIAL_KILL) && (n) > 1) { \
		r = part; \
		if (what == PARTIAL_KILL) die(); \
		if (what == PARTIAL_FAIL) { VF_CTL[2] = VF_CTL[1]; VF_CTL[3] = FAIL_FROM; VF_CTL[6] = type; } \
		return r; } \
	r = whole; \
	if (what == KILL_AFTER) die(); \
	if (what == INTERRUPT) { int e = errno; raise(SIGINT); errno = e; } \
	return r; } while (0)

ssize_t read(int fd, void *buf, size_t n)
{
	REAL(ssize_t, read, int, void *, size_t);
	IO_BODY(T_READ, n, real(fd, buf, n), real(fd, buf, n > 3 ? n / 3 : 1));
}

ssize_t pread64(int fd, void *buf, size_t n, off_t o)
{
	REAL(ssize_t, pread64, int, void *, size_t, off_t);
	IO_BODY(T_READ, n, real(fd, buf, n, o), real(fd, buf, n > 3 ? n / 3 : 1, o));
}

ssize_t write(int fd, const void *buf, size_t n)
{
	REAL(ssize_t, write, int, const void *, size_t);
	IO_BODY(T_WRITE, n, real(fd, buf, n), real(fd, buf, n > 3 ? n / 3 : 1));
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o)
{
	REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
	IO_BODY(T_WRITE, n, real(fd, buf, n, o), real(fd, buf, n > 3 ? n / 3 : 1, o));
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
	REAL(ssize_t, writev, int, const struct iovec *, int);
	IO_BODY(T_WRITE, n, real(fd, v, n), real(fd, v, 1));
}

ssize_t sendfile64(int out, int in, off_t *o, size_t n)
{
	int fd = out;
	REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
	IO_BODY(T_COPY, n, real(out, in, o, n), real(out, in, o, 1));
}

ssize_t copy_file_range(int in, off_t *a, int out, off_t *b, size_t n, unsigned f)
{
	int fd = out;
	REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
	IO_BODY(T_COPY, n, real(in, a, out, b, n, f), real(in, a, out, b, 1, f));
}

off_t lseek64(int fd, off_t o, int w)
{
	REAL(off_t, lseek64, int, off_t, int);
	SIMPLE(ours(fd), T_SEEK, off_t, (off_t)-1, real(fd, o, w));
}

int ftruncate64(int fd, off_t n)
{
	REAL(int, ftruncate64, int, off_t);
	SIMPLE(ours(fd), T_TRUNC, int, -1, real(fd, n));
}

int truncate64(const char *p, off_t n)
{
	REAL(int, truncate64, const char *, off_t);
	SIMPLE(below(p), T_TRUNC, int, -1, real(p, n));
}

#define FD1(name, type) int name(int fd) { REAL(int, name, int); SIMPLE(ours(fd), type, int, -1, real(fd)); }
FD1(fsync, T_SYNC)
FD1(fdatasync, T_SYNC)

int fstat64(int fd, struct stat64 *s)
{
	REAL(int, fstat64, int, struct stat64 *);
	SIMPLE(ours(fd), T_STAT, int, -1, real(fd, s));
}
int stat64(const char *p, struct stat64 *s)
{
	REAL(int, stat64, const char *, struct stat64 *);
	SIMPLE(below(p), T_STAT, int, -1, real(p, s));
}
int lstat64(const char *p, struct stat64 *s)
{
	REAL(int, lstat64, const char *, struct stat64 *);
	SIMPLE(below(p), T_STAT, int, -1, real(p, s));
}
int fstatat64(int d, const char *p, struct stat64 *s, int f)
{
	REAL(int, fstatat64, int, const char *, struct stat64 *, int);
	SIMPLE(d == AT_FDCWD || p[0] == '/' ? below(p) : ours(d), T_STAT, int, -1, real(d, p, s, f));
}
int access(const char *p, int m)
{
	REAL(int, access, const char *, int);
	SIMPLE(below(p), T_STAT, int, -1, real(p, m));
}
ssize_t readlink(const char *p, char *b, size_t n)
{
	REAL(ssize_t, readlink, const char *, char *, size_t);
	SIMPLE(below(p), T_STAT, ssize_t, -1, real(p, b, n));
}
/* As if every folder were a file system of its own */
static int across(const char *a, const char *b)
{
	const char *x = strrchr(a, '/'), *y = strrchr(b, '/');
	size_t m = x ? x - a : 0, n = y ? y - b : 0;
	return VF_CTL[0] && VF_CTL[7] && x && y && (m != n || strncmp(a, b, n));
}

int rename(const char *a, const char *b)
{
	REAL(int, rename, const char *, const char *);
	if (across(a, b)) { errno = EXDEV; return -1; }
	SIMPLE(below(a) || below(b), T_RENAME, int, -1, real(a, b));
}
int renameat(int d, const char *a, int e, const char *b)
{
	REAL(int, renameat, int, const char *, int, const char *);
	SIMPLE(below(a) || below(b) || ours(d) || ours(e), T_RENAME, int, -1, real(d, a, e, b));
}
int unlink(const char *a)
{
	REAL(int, unlink, const char *);
	SIMPLE(below(a), T_UNLINK, int, -1, real(a));
}
int unlinkat(int d, const char *a, int f)
{
	REAL(int, unlinkat, int, const char *, int);
	SIMPLE(d == AT_FDCWD || a[0] == '/' ? below(a) : ours(d), T_UNLINK, int, -1, real(d, a, f));
}
int rmdir(const char *a)
{
	REAL(int, rmdir, const char *);
	SIMPLE(below(a), T_UNLINK, int, -1, real(a));
}
int mkdir(const char *a, mode_t m)
{
	REAL(int, mkdir, const char *, mode_t);
	SIMPLE(below(a), T_DIR, int, -1, real(a, m));
}
int chmod(const char *a, mode_t m)
{
	REAL(int, chmod, const char *, mode_t);
	SIMPLE(below(a), T_MODE, int, -1, real(a, m));
}
int fchmod(int fd, mode_t m)
{
	REAL(int, fchmod, int, mode_t);
	SIMPLE(ours(fd), T_MODE, int, -1, real(fd, m));
}
int fchmodat(int d, const char *a, mode_t m, int f)
{
	REAL(int, fchmodat, int, const char *, mode_t, int);
	SIMPLE(below(a), T_MODE, int, -1, real(d, a, m, f));
}
int chown(const char *a, uid_t u, gid_t g)
{
	REAL(int, chown, const char *, uid_t, gid_t);
	SIMPLE(below(a), T_MODE, int, -1, real(a, u, g));
}
int fchown(int fd, uid_t u, gid_t g)
{
	REAL(int, fchown, int, uid_t, gid_t);
	SIMPLE(ours(fd), T_MODE, int, -1, real(fd, u, g));
}
int utimensat(int d, const char *a, const struct timespec *t, int f)
{
	REAL(int, utimensat, int, const char *, const struct timespec *, int);
	SIMPLE(below(a), T_MODE, int, -1, real(d, a, t, f));
}
int link(const char *a, const char *b)
{
	REAL(int, link, const char *, const char *);
	if (across(a, b)) { errno = EXDEV; return -1; }
	SIMPLE(below(a) || below(b), T_LINK, int, -1, real(a, b));
}
int linkat(int d, const char *a, int e, const char *b, int f)
{
	REAL(int, linkat, int, const char *, int, const char *, int);
	SIMPLE(below(a) || below(b), T_LINK, int, -1, real(d, a, e, b, f));
}
int symlink(const char *a, const char *b)
{
	REAL(int, symlink, const char *, const char *);
	SIMPLE(below(b), T_LINK, int, -1, real(a, b));
}
