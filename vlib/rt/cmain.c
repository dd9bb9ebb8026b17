// main of the programs that are compiled without the standard library: trap guard and binary output
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/resource.h>
void run(void);
static sigjmp_buf env;
static volatile int in;
static char alt[1 << 16];
static void on_sig(int s)
{
	if (in) siglongjmp(env, s);
	fflush(stdout);
	static const char m[] = "FATAL SIGNAL\n";
	(void)!write(2, m, sizeof m - 1);
	_exit(70 + s);
}
void out(const void *p, unsigned long n) { fwrite(p, 1, n, stdout); }
void out_int(long v) { printf("%ld\n", v); }
void out_str(const char *p) { puts(p); }
// events of a test case, in order
static char ev[1 << 16];
static unsigned long evn;
void evt(int c) { if (evn < sizeof ev - 1) ev[evn++] = (char)c; }
long evi(long v, int c) { evt(c); return v; }
void ev_num(long v) { char b[32]; int n = snprintf(b, sizeof b, "%ld,", v); for (int i = 0; i < n; i++) evt(b[i]); }
void ev_int(int v) { ev_num(v); }
void ev_u(unsigned long v) { char b[32]; int n = snprintf(b, sizeof b, "%lu,", v); for (int i = 0; i < n; i++) evt(b[i]); }
void ev_flush(void) { ev[evn] = 0; puts(ev); evn = 0; }
// 0: returned, else the number of the signal it ended with
int guard(void (*f)(void *), void *p)
{
	in = 1;
	int r = sigsetjmp(env, 1);
	if (!r) f(p);
	in = 0;
	return r;
}
// calls every function of a table under the guard; prints what each recorded and how it ended
void run_table(void (**f)(void *), long n)
{
	for (long i = 0; i < n; i++)
	{
		evn = 0;
		int r = guard(f[i], 0);
		ev[evn] = 0;
		printf("%ld %d %s\n", i, r, ev);
	}
	evn = 0;
}
// a grid: every function f[i] called with k = 0..n[i]-1 under the guard; one line per function, per call "events" then
// "!" (panic), "?<signal>" (any other trap) or nothing, then what after() records, then "|"
void vh_panic(const char *m, long n) { (void)m; (void)n; if (in) siglongjmp(env, 100); _exit(99); }
static void (*gf)(long);
static void gcall(void *p) { gf((long)p); }
void run_grid(void (**f)(long), int *n, long cnt, void (*after)(void))
{
	for (long i = 0; i < cnt; i++)
	{
		evn = 0;
		printf("%ld ", i);
		gf = f[i];
		for (long k = 0; k < n[i]; k++)
		{
			evn = 0;
			int r = guard(gcall, (void *)k);
			if (r == 100) evt('!');
			else if (r) { evt('?'); ev_num(r); }
			if (after) after();
			ev[evn] = 0;
			fputs(ev, stdout);
			putchar('|');
		}
		putchar('\n');
	}
	evn = 0;
}
int main(void)
{
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK | SA_NODEFER };
	int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP };
	for (int i = 0; i < 6; i++) sigaction(sigs[i], &sa, NULL);
	setvbuf(stdout, NULL, _IOFBF, 1 << 20);
	run();
	fflush(stdout);
	return 0;
}
