/* The operating system as smd sees it, under the control of a check.
 *
 * Preloaded into smd (and only acting there). Every call that concerns a path
 * below $SHIM_ROOT, or a file opened there, is a step with a number. Before a
 * step is taken
 *  - a scheduler is asked, when $SHIM_GATE names its socket: smd waits until it
 *    is granted, and the grant may carry an action;
 *  - otherwise $SHIM_PLAN ("3=short:1,5=err:28") is looked up.
 * A call's name in place of the number stands for all calls of that name.
 * Actions: short:N (at most N bytes), half (half of them), err:ERRNO, zero (nothing
 * written), kill. Steps are written to $SHIM_LOG. $SHIM_PID and $SHIM_TIME set the
 * process id and the time of day that smd is told, $SHIM_HASTE by what its sleeps and waits are
 * divided.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

static int active, logfd = -1, gatefd = -1;
static char root[PATH_MAX], plan[1 << 16], gateid[64];
static size_t rootlen;
static int counter;
static char tracked[4096];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static long fake_pid, fake_time, haste = 1;

static void raw_write(int fd, const char *s, size_t n)
{
	while (n) {
		long r = syscall(SYS_write, fd, s, n);
		if (r <= 0) {
			if (r < 0 && errno == EINTR) continue;
			return;
		}
		s += r;
		n -= r;
	}
}

__attribute__((constructor)) static void init(void)
{
	const char *want = getenv("SHIM_PROGRAM");
	if (!want) want = "smd";
	if (strcmp(program_invocation_short_name, want) || !getenv("SHIM_ROOT")) return;
	snprintf(root, sizeof root, "%s", getenv("SHIM_ROOT"));
	rootlen = strlen(root);
	if (getenv("SHIM_PLAN")) snprintf(plan, sizeof plan, ",%s,", getenv("SHIM_PLAN"));
	if (getenv("SHIM_PID")) fake_pid = atol(getenv("SHIM_PID"));
	if (getenv("SHIM_TIME")) fake_time = atol(getenv("SHIM_TIME"));
	if (getenv("SHIM_HASTE")) haste = atol(getenv("SHIM_HASTE"));
	if (getenv("SHIM_LOG")) {
		int fd = syscall(SYS_openat, AT_FDCWD, getenv("SHIM_LOG"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
		logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
		syscall(SYS_close, fd);
	}
	if (getenv("SHIM_GATE")) {
		struct sockaddr_un a = {.sun_family = AF_UNIX};
		snprintf(a.sun_path, sizeof a.sun_path, "%s", getenv("SHIM_GATE"));
		snprintf(gateid, sizeof gateid, "%s", getenv("SHIM_ID") ? getenv("SHIM_ID") : "p");
		int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
		gatefd = fcntl(fd, F_DUPFD_CLOEXEC, 901);
		syscall(SYS_close, fd);
		if (connect(gatefd, (void *)&a, sizeof a)) _exit(120);
	}
	active = 1;
}

/* Is the path below the root? Relative ones are taken from the directory. */
static int ours(int dirfd, const char *p)
{
	char buf[PATH_MAX * 2];
	if (!active || !p) return 0;
	if (p[0] != '/') {
		char dir[PATH_MAX] = "";
		if (dirfd == AT_FDCWD) {
			if (syscall(SYS_getcwd, dir, sizeof dir) < 0) return 0;
		} else {
			char l[64];
			snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
			long n = syscall(SYS_readlinkat, AT_FDCWD, l, dir, sizeof dir - 1);
			if (n < 0) return 0;
			dir[n] = 0;
		}
		snprintf(buf, sizeof buf, "%s/%s", dir, p);
		p = buf;
	}
	return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}

struct act {
	int kind; /* 0 none, 1 short, 2 half, 3 error, 4 zero */
	long n;
};

/* One step. what: the call, target: path or descriptor, size: bytes or -1 */
static struct act step(const char *what, const char *target, int fd, long size, const char *flags)
{
	struct act a = {0, 0};
	char line[PATH_MAX + 200], word[64] = "", hexed[PATH_MAX];
	int e = errno;
	pthread_mutex_lock(&lock);
	int n = ++counter;
	size_t h = 0;
	for (const char *c = target ? target : ""; *c && h < sizeof hexed - 4; c++)
		if (*c > ' ' && *c != '%' && (unsigned char)*c < 127) hexed[h++] = *c;
		else h += sprintf(hexed + h, "%%%02X", (unsigned char)*c);
	hexed[h] = 0;
	int len = snprintf(line, sizeof line, "%d %s %s %d %ld %s\n", n, what, h ? hexed : "-", fd, size, flags ? flags : "-");
	if (logfd >= 0) raw_write(logfd, line, len);
	if (gatefd >= 0) {
		char msg[PATH_MAX + 300];
		len = snprintf(msg, sizeof msg, "%s %s", gateid, line);
		raw_write(gatefd, msg, len);
		size_t k = 0;
		for (;;) {
			char c;
			long r = syscall(SYS_read, gatefd, &c, 1);
			if (r < 0 && errno == EINTR) continue;
			if (r <= 0 || c == '\n') break;
			if (k < sizeof word - 1) word[k++] = c;
		}
		word[k] = 0;
	} else {
		char key[32], *p;
		snprintf(key, sizeof key, ",%d=", n);
		if (!(p = strstr(plan, key))) {
			/* what holds for every call of a kind */
			snprintf(key, sizeof key, ",%s=", what);
			p = strstr(plan, key);
		}
		if (p) sscanf(p + strlen(key), "%63[^,]", word);
	}
	pthread_mutex_unlock(&lock);
	errno = e;
	if (!strncmp(word, "short:", 6)) a.kind = 1, a.n = atol(word + 6);
	else if (!strcmp(word, "half")) a.kind = 2;
	else if (!strncmp(word, "err:", 4)) a.kind = 3, a.n = atol(word + 4);
	else if (!strcmp(word, "zero")) a.kind = 4;
	else if (!strcmp(word, "kill")) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL), pause();
	return a;
}

#define FAIL(a) if ((a).kind == 3) { errno = (a).n; return -1; }
#define NEXT(type, name, ...) \
	static type (*next)(__VA_ARGS__); \
	if (!next) next = dlsym(RTLD_NEXT, name);
#define TRACKED(fd) (active && (fd) >= 0 && (fd) < 4096 && tracked[fd])

static void track(int fd, int on)
{
	if (fd >= 0 && fd < 4096) tracked[fd] = on;
}

/* ---- opening ---- */

static int opened(const char *call, int dirfd, const char *p, int flags, mode_t mode)
{
	int mine = ours(dirfd, p);
	if (mine) {
		char f[64];
		snprintf(f, sizeof f, "%s%s%s%s", (flags & O_ACCMODE) == O_RDONLY ? "r" : "w", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", flags & O_EXCL ? "x" : "");
		struct act a = step("open", p, -1, -1, f);
		FAIL(a);
	}
	int fd = syscall(SYS_openat, dirfd, p, flags, mode);
	if (active) track(fd, mine && fd >= 0);
	return fd;
}
#define MODE(flags) \
	mode_t mode = 0; \
	if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list v; va_start(v, flags); mode = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int flags, ...) { MODE(flags) return opened("open", AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return opened("open", AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return opened("open", d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return opened("open", d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return opened("open", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return opened("open", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd)
{
	if (active) track(fd, 0);
	return syscall(SYS_close, fd);
}

/* ---- data ---- */

static size_t cut(struct act a, size_t n)
{
	if (a.kind == 1 && (size_t)a.n < n) return a.n;
	if (a.kind == 2 && n > 1) return n / 2;
	return n;
}
ssize_t read(int fd, void *b, size_t n)
{
	if (TRACKED(fd)) {
		struct act a = step("read", 0, fd, n, 0);
		FAIL(a);
		n = cut(a, n);
	}
	return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
	if (TRACKED(fd)) {
		struct act a = step("read", 0, fd, n, 0);
		FAIL(a);
		n = cut(a, n);
	}
	return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
	if (TRACKED(fd) && c > 0) {
		struct act a = step("read", 0, fd, v[0].iov_len, 0);
		FAIL(a);
		if (a.kind) return syscall(SYS_read, fd, v[0].iov_base, cut(a, v[0].iov_len));
	}
	return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n)
{
	if (TRACKED(fd)) {
		struct act a = step("write", 0, fd, n, 0);
		FAIL(a);
		if (a.kind == 4) return 0;
		n = cut(a, n);
	}
	return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
	if (TRACKED(fd)) {
		struct act a = step("write", 0, fd, n, 0);
		FAIL(a);
		if (a.kind == 4) return 0;
		n = cut(a, n);
	}
	return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (TRACKED(fd) && c > 0) {
		size_t all = 0;
		for (int i = 0; i < c; i++) all += v[i].iov_len;
		struct act a = step("write", 0, fd, all, 0);
		FAIL(a);
		if (a.kind == 4) return 0;
		if (a.kind) {
			int i = 0;
			while (i < c - 1 && !v[i].iov_len) i++;
			return syscall(SYS_write, fd, v[i].iov_base, cut(a, v[i].iov_len));
		}
	}
	return syscall(SYS_writev, fd, v, c);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f)
{
	if (TRACKED(i) || TRACKED(o)) {
		struct act a = step("write", "copy", o, n, 0);
		FAIL(a);
		n = cut(a, n);
	}
	return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n)
{
	if (TRACKED(i) || TRACKED(o)) {
		struct act a = step("write", "sendfile", o, n, 0);
		FAIL(a);
		n = cut(a, n);
	}
	return syscall(SYS_sendfile, o, i, off, n);
}
int fsync(int fd)
{
	if (TRACKED(fd)) { struct act a = step("fsync", 0, fd, -1, 0); FAIL(a); }
	return syscall(SYS_fsync, fd);
}
int fdatasync(int fd)
{
	if (TRACKED(fd)) { struct act a = step("fsync", 0, fd, -1, 0); FAIL(a); }
	return syscall(SYS_fdatasync, fd);
}
int ftruncate64(int fd, off64_t n)
{
	if (TRACKED(fd)) { struct act a = step("truncate", 0, fd, -1, 0); FAIL(a); }
	return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int dupped(int from, int to)
{
	if (to >= 0) track(to, TRACKED(from));
	return to;
}
int fcntl64(int fd, int cmd, ...)
{
	va_list v;
	va_start(v, cmd);
	long arg = va_arg(v, long);
	va_end(v);
	int r = syscall(SYS_fcntl, fd, cmd, arg);
	if (active && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) dupped(fd, r);
	return r;
}

/* ---- names ---- */

int unlink(const char *p)
{
	if (ours(AT_FDCWD, p)) { struct act a = step("unlink", p, -1, -1, 0); FAIL(a); }
	return syscall(SYS_unlinkat, AT_FDCWD, p, 0);
}
int unlinkat(int d, const char *p, int f)
{
	if (ours(d, p)) { struct act a = step("unlink", p, -1, -1, 0); FAIL(a); }
	return syscall(SYS_unlinkat, d, p, f);
}
int rmdir(const char *p)
{
	if (ours(AT_FDCWD, p)) { struct act a = step("rmdir", p, -1, -1, 0); FAIL(a); }
	return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
}
int mkdir(const char *p, mode_t m)
{
	if (ours(AT_FDCWD, p)) { struct act a = step("mkdir", p, -1, -1, 0); FAIL(a); }
	return syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int rename(const char *p, const char *q)
{
	if (ours(AT_FDCWD, p) || ours(AT_FDCWD, q)) { struct act a = step("rename", q, -1, -1, 0); FAIL(a); }
	return syscall(SYS_renameat2, AT_FDCWD, p, AT_FDCWD, q, 0);
}
int renameat(int d, const char *p, int e, const char *q)
{
	if (ours(d, p) || ours(e, q)) { struct act a = step("rename", q, -1, -1, 0); FAIL(a); }
	return syscall(SYS_renameat2, d, p, e, q, 0);
}
int renameat2(int d, const char *p, int e, const char *q, unsigned f)
{
	if (ours(d, p) || ours(e, q)) { struct act a = step("rename", q, -1, -1, 0); FAIL(a); }
	return syscall(SYS_renameat2, d, p, e, q, f);
}
int link(const char *p, const char *q)
{
	if (ours(AT_FDCWD, p) || ours(AT_FDCWD, q)) { struct act a = step("link", q, -1, -1, 0); FAIL(a); }
	return syscall(SYS_linkat, AT_FDCWD, p, AT_FDCWD, q, 0);
}
int linkat(int d, const char *p, int e, const char *q, int f)
{
	if (ours(d, p) || ours(e, q)) { struct act a = step("link", q, -1, -1, 0); FAIL(a); }
	return syscall(SYS_linkat, d, p, e, q, f);
}
int symlink(const char *p, const char *q)
{
	if (ours(AT_FDCWD, q)) { struct act a = step("link", q, -1, -1, 0); FAIL(a); }
	return syscall(SYS_symlinkat, p, AT_FDCWD, q);
}
int chmod(const char *p, mode_t m)
{
	if (ours(AT_FDCWD, p)) { struct act a = step("chmod", p, -1, -1, 0); FAIL(a); }
	return syscall(SYS_fchmodat, AT_FDCWD, p, m);
}

/* ---- looking ---- */

int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict b)
{
	const char *volatile q = p; /* Rust asks with a null pointer whether there is a statx */
	if (active && q && *q && ours(d, q)) { struct act a = step("stat", p, -1, -1, 0); FAIL(a); }
	return syscall(SYS_statx, d, p, f, m, b);
}
int stat64(const char *restrict p, struct stat64 *restrict b)
{
	NEXT(int, "stat64", const char *, struct stat64 *)
	if (ours(AT_FDCWD, p)) { struct act a = step("stat", p, -1, -1, 0); FAIL(a); }
	return next(p, b);
}
int lstat64(const char *restrict p, struct stat64 *restrict b)
{
	NEXT(int, "lstat64", const char *, struct stat64 *)
	if (ours(AT_FDCWD, p)) { struct act a = step("stat", p, -1, -1, 0); FAIL(a); }
	return next(p, b);
}
int access(const char *p, int m)
{
	if (ours(AT_FDCWD, p)) { struct act a = step("stat", p, -1, -1, 0); FAIL(a); }
	return syscall(SYS_faccessat, AT_FDCWD, p, m);
}
char *realpath(const char *restrict p, char *restrict r)
{
	NEXT(char *, "realpath", const char *, char *)
	if (ours(AT_FDCWD, p)) {
		struct act a = step("realpath", p, -1, -1, 0);
		if (a.kind == 3) { errno = a.n; return 0; }
	}
	return next(p, r);
}

/* ---- who and when ---- */

pid_t getpid(void)
{
	return active && fake_pid ? (pid_t)fake_pid : (pid_t)syscall(SYS_getpid);
}
int clock_gettime(clockid_t c, struct timespec *t)
{
	NEXT(int, "clock_gettime", clockid_t, struct timespec *)
	if (active && fake_time && c == CLOCK_REALTIME) {
		t->tv_sec = fake_time;
		t->tv_nsec = 123456789;
		return 0;
	}
	return next(c, t);
}

/* Naps between two looks at the browser are shortened. */
static struct timespec shorter(const struct timespec *t)
{
	long long n = (t->tv_sec * 1000000000LL + t->tv_nsec) / (active ? haste : 1);
	struct timespec r = {n / 1000000000LL, n % 1000000000LL};
	return r;
}
int nanosleep(const struct timespec *t, struct timespec *rem)
{
	struct timespec s = shorter(t);
	return syscall(SYS_nanosleep, &s, rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem)
{
	struct timespec s = flags & TIMER_ABSTIME ? *t : shorter(t);
	return syscall(SYS_clock_nanosleep, c, flags, &s, rem) ? errno : 0;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t n)
{
	if (active && level == SOL_SOCKET && name == SO_RCVTIMEO && n == sizeof(struct timeval)) {
		struct timeval t = *(const struct timeval *)v;
		long long u = (t.tv_sec * 1000000LL + t.tv_usec) / haste;
		struct timeval s = {u / 1000000, u % 1000000};
		if (u || !(t.tv_sec || t.tv_usec)) return syscall(SYS_setsockopt, fd, level, name, &s, sizeof s);
	}
	return syscall(SYS_setsockopt, fd, level, name, v, n);
}
