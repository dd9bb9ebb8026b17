// preloaded into the compiler: the n-th call of a function fails as told, or all calls are counted
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <pthread.h>
#include <signal.h>
#include <sys/resource.h>

static const char *fn, *count_file;
static int nth, mode, me, all;
static long limit = -1;
enum { N = 64 };
static const char *names[N];
static int counts[N], used;
static int hit(const char *name)
{
	if (!me) return 0;
	if (count_file)
	{
		static int lock;
		while (__sync_lock_test_and_set(&lock, 1)) {}
		int i = 0;
		while (i < used && strcmp(names[i], name)) i++;
		if (i == used && used < N) names[used++] = name;
		if (i < N) counts[i]++;
		__sync_lock_release(&lock);
		return 0;
	}
	if (!fn || strcmp(fn, name)) return 0;
	static int n;
	int k = __sync_add_and_fetch(&n, 1);
	return all ? k >= nth : k == nth;
}
// only the compiler's own files are limited, not those of the processes it starts
static void lim(int on)
{
	struct rlimit l;
	if (limit < 0) return;
	getrlimit(RLIMIT_FSIZE, &l);
	l.rlim_cur = on ? limit : l.rlim_max;
	setrlimit(RLIMIT_FSIZE, &l);
}
__attribute__((constructor)) static void start(void)
{
	fn = getenv("VF_FN");
	count_file = getenv("VF_COUNT");
	nth = getenv("VF_N") ? atoi(getenv("VF_N")) : 0;
	mode = getenv("VF_MODE") ? atoi(getenv("VF_MODE")) : EIO;
	char exe[4096];
	ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
	if (k < 0) k = 0;
	exe[k] = 0;
	const char *b = strrchr(exe, '/');
	me = b && !strcmp(b + 1, "c3c");
	all = getenv("VF_ALL") != NULL;
	if (me && getenv("VF_LIMIT"))
	{
		signal(SIGXFSZ, SIG_IGN);
		limit = atol(getenv("VF_LIMIT"));
		lim(1);
	}
	if (!getenv("VF_ALSO")) unsetenv("LD_PRELOAD");
}
__attribute__((destructor)) static void end(void)
{
	if (!me || !count_file) return;
	me = 0;
	static int (*real)(const char *, int, ...);
	real = dlsym(RTLD_NEXT, "open");
	int f = real(count_file, O_WRONLY | O_CREAT | O_APPEND, 0666);
	if (f < 0) return;
	char line[200];
	for (int i = 0; i < used; i++)
	{
		int k = snprintf(line, sizeof line, "%s %d\n", names[i], counts[i]);
		ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
		if (w(f, line, k) < 0) {}
	}
}
#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define FAIL(name, val) if (hit(#name)) { errno = mode; return val; }
#define OPENER(name) int name(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
	REAL(int, name, const char *, int, ...); FAIL(name, -1); return real(p, fl, m); }
OPENER(open)
OPENER(open64)
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); REAL(int, openat, int, const char *, int, ...); FAIL(openat, -1); return real(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); REAL(int, openat64, int, const char *, int, ...); FAIL(openat64, -1); return real(d, p, fl, m); }
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); FAIL(fopen, NULL); return real(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); FAIL(fopen64, NULL); return real(p, m); }
ssize_t read(int f, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); FAIL(read, -1); return real(f, b, n); }
ssize_t pread(int f, void *b, size_t n, off_t o) { REAL(ssize_t, pread, int, void *, size_t, off_t); FAIL(pread, -1); return real(f, b, n, o); }
ssize_t pread64(int f, void *b, size_t n, off64_t o) { REAL(ssize_t, pread64, int, void *, size_t, off64_t); FAIL(pread64, -1); return real(f, b, n, o); }
size_t fread(void *b, size_t s, size_t n, FILE *f) { REAL(size_t, fread, void *, size_t, size_t, FILE *); if (hit("fread")) { errno = mode; size_t r = n > 1 ? real(b, s, n / 2, f) : 0; f->_flags |= 0x20; return r; } return real(b, s, n, f); }
ssize_t write(int f, const void *b, size_t n) { if (f > 2) { if (hit("write")) { errno = mode; return -1; } if (n > 1 && hit("write_short")) { static ssize_t (*r2)(int, const void *, size_t); if (!r2) r2 = dlsym(RTLD_NEXT, "write"); return r2(f, b, n / 2); } } REAL(ssize_t, write, int, const void *, size_t); return real(f, b, n); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { REAL(size_t, fwrite, const void *, size_t, size_t, FILE *); if (fileno(f) > 2 && hit("fwrite")) { errno = mode; f->_flags |= 0x20; return 0; } return real(b, s, n, f); }
int fputs(const char *b, FILE *f) { REAL(int, fputs, const char *, FILE *); if (fileno(f) > 2 && hit("fputs")) { errno = mode; f->_flags |= 0x20; return EOF; } return real(b, f); }
int fclose(FILE *f) { REAL(int, fclose, FILE *); if (hit("fclose")) { real(f); errno = mode; return EOF; } return real(f); }
int close(int f) { REAL(int, close, int); if (f > 2 && hit("close")) { real(f); errno = mode; return -1; } return real(f); }
int fseek(FILE *f, long o, int w) { REAL(int, fseek, FILE *, long, int); FAIL(fseek, -1); return real(f, o, w); }
long ftell(FILE *f) { REAL(long, ftell, FILE *); FAIL(ftell, -1); return real(f); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); FAIL(mkdir, -1); return real(p, m); }
int unlink(const char *p) { REAL(int, unlink, const char *); FAIL(unlink, -1); return real(p); }
int rename(const char *p, const char *q) { REAL(int, rename, const char *, const char *); FAIL(rename, -1); return real(p, q); }
int chdir(const char *p) { REAL(int, chdir, const char *); FAIL(chdir, -1); return real(p); }
char *getcwd(char *b, size_t n) { REAL(char *, getcwd, char *, size_t); FAIL(getcwd, NULL); return real(b, n); }
char *realpath(const char *p, char *b) { REAL(char *, realpath, const char *, char *); FAIL(realpath, NULL); return real(p, b); }
int stat(const char *p, struct stat *s) { REAL(int, stat, const char *, struct stat *); FAIL(stat, -1); return real(p, s); }
int stat64(const char *p, struct stat64 *s) { REAL(int, stat64, const char *, struct stat64 *); FAIL(stat64, -1); return real(p, s); }
int fstat(int p, struct stat *s) { REAL(int, fstat, int, struct stat *); FAIL(fstat, -1); return real(p, s); }
int fstat64(int p, struct stat64 *s) { REAL(int, fstat64, int, struct stat64 *); FAIL(fstat64, -1); return real(p, s); }
int lstat(const char *p, struct stat *s) { REAL(int, lstat, const char *, struct stat *); FAIL(lstat, -1); return real(p, s); }
int access(const char *p, int m) { REAL(int, access, const char *, int); FAIL(access, -1); return real(p, m); }
DIR *opendir(const char *p) { REAL(DIR *, opendir, const char *); FAIL(opendir, NULL); return real(p); }
struct dirent *readdir(DIR *d) { REAL(struct dirent *, readdir, DIR *); FAIL(readdir, NULL); return real(d); }
int scandir(const char *p, struct dirent ***l, int (*s)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { REAL(int, scandir, const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **)); FAIL(scandir, -1); return real(p, l, s, c); }
int system(const char *p) { REAL(int, system, const char *); if (hit("system")) { errno = mode; return -1; } if (hit("system_status")) return 256; if (hit("system_signal")) return 9; lim(0); int r = real(p); lim(1); return r; }
FILE *popen(const char *p, const char *m) { REAL(FILE *, popen, const char *, const char *); FAIL(popen, NULL); lim(0); FILE *r = real(p, m); lim(1); return r; }
int pclose(FILE *p) { REAL(int, pclose, FILE *); if (hit("pclose")) { real(p); return 256; } return real(p); }
pid_t fork(void) { REAL(pid_t, fork, void); FAIL(fork, -1); lim(0); pid_t r = real(); if (r) lim(1); return r; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); if (hit("pthread_create")) return EAGAIN; return real(t, a, f, x); }
int ftruncate(int f, off_t n) { REAL(int, ftruncate, int, off_t); FAIL(ftruncate, -1); return real(f, n); }
int ftruncate64(int f, off64_t n) { REAL(int, ftruncate64, int, off64_t); FAIL(ftruncate64, -1); return real(f, n); }
int posix_fallocate(int f, off_t o, off_t n) { REAL(int, posix_fallocate, int, off_t, off_t); if (hit("posix_fallocate")) return mode; return real(f, o, n); }
int posix_fallocate64(int f, off64_t o, off64_t n) { REAL(int, posix_fallocate64, int, off64_t, off64_t); if (hit("posix_fallocate64")) return mode; return real(f, o, n); }
int fchmod(int f, mode_t m) { REAL(int, fchmod, int, mode_t); FAIL(fchmod, -1); return real(f, m); }
int chmod(const char *f, mode_t m) { REAL(int, chmod, const char *, mode_t); FAIL(chmod, -1); return real(f, m); }
int link(const char *p, const char *q) { REAL(int, link, const char *, const char *); FAIL(link, -1); return real(p, q); }
