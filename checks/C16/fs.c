// Preloaded into the compiler: when it opens its source file for the first time, run all inputs of a list from there, each in a process of its own.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static int started;
static char alt[1 << 16];

static void crashed(int s, siginfo_t *si, void *uc)
{
	void *pc[24];
	char buf[128];
	int n = backtrace(pc, 24);
	dprintf(2, "\nCRASH %d\n", s);
	for (int i = 1; i < n; i++)
	{
		Dl_info info;
		if (dladdr(pc[i], &info) && info.dli_fname && !strstr(info.dli_fname, ".so")) dprintf(2, "PC %lx\n", (unsigned long)((char *)pc[i] - (char *)info.dli_fbase));
	}
	(void)buf; (void)si; (void)uc;
	signal(s, SIG_DFL);
	_exit(128 + s);
}

static void serve(void)
{
	const char *list = getenv("VS_LIST"), *results = getenv("VS_RESULTS"), *name = getenv("VS_NAME");
	FILE *(*fo)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen");
	FILE *in = fo(list, "rb"), *res = fo(results, "wb");
	if (!in || !res) _exit(97);
	int out = memfd_create("out", 0);
	char *text = malloc(1 << 20), *o = malloc(1 << 16);
	void *warm[4]; backtrace(warm, 4); // loads what it needs
	unsigned len;
	while (fread(&len, 4, 1, in) == 1)
	{
		if (len >= 1 << 20 || fread(text, 1, len, in) != len) _exit(96);
		int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (write(fd, text, len) != (ssize_t)len) _exit(95);
		close(fd);
		ftruncate(out, 0);
		fflush(res);
		pid_t p = fork();
		if (!p)
		{
			lseek(out, 0, SEEK_SET);
			dup2(out, 1); dup2(out, 2);
			fclose(in); // the list is read by the parent
			sigaltstack(&(stack_t) { .ss_sp = alt, .ss_size = sizeof(alt) }, NULL);
			struct sigaction sa = { .sa_sigaction = crashed, .sa_flags = SA_ONSTACK | SA_SIGINFO };
			int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE };
			for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, NULL);
			struct rlimit rl = { 20, 20 };
			setrlimit(RLIMIT_CPU, &rl);
			alarm(100);
			return;
		}
		int st = 0;
		waitpid(p, &st, 0);
		ssize_t n = pread(out, o, 1 << 16, 0);
		if (n < 0) n = 0;
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
		int hdr[2] = { code, (int)n };
		fwrite(hdr, 4, 2, res);
		fwrite(o, 1, n, res);
	}
	fclose(res);
	_exit(0);
}

static void maybe(const char *path)
{
	const char *n = getenv("VS_NAME");
	if (started || !n || !path) return;
	size_t a = strlen(path), b = strlen(n);
	if (a < b || strcmp(path + a - b, n)) return;
	started = 1;
	serve();
}

FILE *fopen(const char *p, const char *m) { maybe(p); FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen"); return f(p, m); }
FILE *fopen64(const char *p, const char *m) { maybe(p); FILE *(*f)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen64"); return f(p, m); }
int open(const char *p, int fl, ...) { maybe(p); va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); return f(p, fl, m); }
int open64(const char *p, int fl, ...) { maybe(p); va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64"); return f(p, fl, m); }
