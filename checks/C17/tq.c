// Explores src/utils/taskqueue.c, compiled with -fsanitize=thread: the calls that puts at every memory access and the pthread functions
// it uses are the scheduling points of this controlled scheduler. Threads are coroutines; every schedule up to a number of preemptions
// is run. Data races are found with vector clocks.
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>

#include "utils/lib.h"

#define MAXT 10
#define STACK (64 * 1024)
#define MAXSTEP 4000
#define MAXC 8000

typedef struct { unsigned c[MAXT]; } VC;
typedef struct
{
	ucontext_t ctx;
	char *stack;
	int state; // 0 unused 1 runnable 2 waiting for lock 3 waiting for join 4 done 5 waiting for cond
	void *wait;
	int join;
	void *(*fn)(void *);
	void *arg;
	VC vc;
	int joined, detached;
	int signaled;
} Th;
static Th th[MAXT];
static int nth, cur;
static ucontext_t sched;
static int active;
static const char *fail;
static char failbuf[300];
static int error_exited;

// choices of the schedule
static int pre[MAXC], npre, trace[MAXC], nopt[MAXC], ntrace, tcost[MAXC];
static int preempts, bound, steps;
static int faults_left, fault_bound;
static unsigned long schedules, points, maxpoints;

static void bad(const char *f, ...)
{
	if (fail) return;
	va_list a;
	va_start(a, f);
	vsnprintf(failbuf, sizeof(failbuf), f, a);
	va_end(a);
	fail = failbuf;
}

static void to_sched(void) { swapcontext(&th[cur].ctx, &sched); }

static void yield_(void)
{
	if (!active || fail) { if (active && fail) { to_sched(); } return; }
	to_sched();
}

static void vc_join(VC *a, const VC *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

// synchronization objects by address
typedef struct { void *addr; int kind; int owner; VC vc; int inited; int destroyed; int count; int wr; int rd; } Obj;
static Obj objs[64];
static int nobjs;
static Obj *obj(void *p)
{
	for (int i = 0; i < nobjs; i++) if (objs[i].addr == p) return &objs[i];
	if (nobjs == 64) { bad("too many objects"); return &objs[0]; }
	objs[nobjs] = (Obj) { .addr = p, .owner = -1 };
	return &objs[nobjs++];
}

// shadow memory for races
typedef struct { uintptr_t a; int wt; unsigned wc; unsigned rc[MAXT]; } Sh;
#define NSH 8192
static Sh shadow[NSH];
static int shadow_used[NSH], nshadow;
static Sh *sh(uintptr_t a)
{
	unsigned h = (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 40) % NSH;
	while (shadow[h].a && shadow[h].a != a) h = (h + 1) % NSH;
	if (!shadow[h].a)
	{
		if (nshadow > NSH / 2) { bad("shadow memory full"); return &shadow[h]; }
		memset(&shadow[h], 0, sizeof(Sh));
		shadow[h].a = a;
		shadow[h].wt = -1;
		shadow_used[nshadow++] = (int)h;
	}
	return &shadow[h];
}

static int own_stack(uintptr_t a)
{
	return a >= (uintptr_t)th[cur].stack && a < (uintptr_t)th[cur].stack + STACK;
}

static void access_(void *p, size_t n, int w)
{
	if (!active || fail) return;
	uintptr_t a = (uintptr_t)p;
	if (!own_stack(a)) yield_();
	if (fail) return;
	for (size_t i = 0; i < n; i++)
	{
		Sh *s = sh(a + i);
		VC *v = &th[cur].vc;
		if (s->wt >= 0 && s->wt != cur && s->wc > v->c[s->wt]) { bad("data race: thread %d %s what thread %d wrote", cur, w ? "writes" : "reads", s->wt); return; }
		if (w)
		{
			for (int t = 0; t < MAXT; t++) if (t != cur && s->rc[t] > v->c[t]) { bad("data race: thread %d writes what thread %d reads", cur, t); return; }
			s->wt = cur;
			s->wc = v->c[cur];
		}
		else s->rc[cur] = v->c[cur];
	}
}

#define RW(n) \
void __tsan_read##n(void *p) { access_(p, n, 0); } \
void __tsan_write##n(void *p) { access_(p, n, 1); } \
void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } \
void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); } \
void __tsan_read_write##n(void *p) { access_(p, n, 0); access_(p, n, 1); } \
void __tsan_volatile_read##n(void *p) { access_(p, n, 0); } \
void __tsan_volatile_write##n(void *p) { access_(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, 8, 1); }
void __tsan_vptr_read(void **p) { access_(p, 8, 0); }
void __tsan_read_range(void *p, size_t n) { access_(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((void*)s, n, 0); access_(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_((void*)s, n, 0); access_(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, 1); return memset(d, c, n); }

static void acq_rel(void *p)
{
	if (!active) return;
	yield_();
	if (fail) return;
	Obj *o = obj(p);
	vc_join(&th[cur].vc, &o->vc);
	vc_join(&o->vc, &th[cur].vc);
	th[cur].vc.c[cur]++;
}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int o) { (void)o; acq_rel((void*)p); return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = v; return q; } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = (T)(q + v); return q; } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = (T)(q - v); return q; } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = q & v; return q; } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = q | v; return q; } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = q ^ v; return q; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { (void)o; (void)f; acq_rel((void*)p); T q = *p; if (q == e) *p = v; return q; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; acq_rel((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, o, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; static int f; acq_rel(&f); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

// threads
static void thread_main(int i)
{
	th[i].fn(th[i].arg);
	th[i].state = 4;
	to_sched();
}

int choice(int n, int cost0)
{
	// cost0: option 0 costs nothing, the others one preemption
	int c;
	if (ntrace >= MAXC) { bad("too many choices"); return 0; }
	c = ntrace < npre ? pre[ntrace] : 0;
	if (cost0 && preempts >= bound) n = 1;
	if (c >= n) c = 0;
	nopt[ntrace] = n;
	trace[ntrace++] = c;
	if (cost0 && c) preempts++;
	return c;
}

int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	yield_();
	if (faults_left && choice(2, 0)) { faults_left--; return EAGAIN; }
	if (nth == MAXT) { bad("more threads than asked for"); return EAGAIN; }
	int i = nth++;
	Th *x = &th[i];
	x->state = 1;
	x->fn = fn;
	x->arg = arg;
	x->joined = x->detached = x->signaled = 0;
	x->vc = th[cur].vc;
	x->vc.c[i]++;
	th[cur].vc.c[cur]++;
	getcontext(&x->ctx);
	if (!x->stack) x->stack = malloc(STACK);
	x->ctx.uc_stack.ss_sp = x->stack;
	x->ctx.uc_stack.ss_size = STACK;
	x->ctx.uc_link = &sched;
	makecontext(&x->ctx, (void (*)(void))thread_main, 1, i);
	*t = (pthread_t)(i + 1000);
	(void)attr;
	return 0;
}

void pthread_exit(void *r)
{
	(void)r;
	th[cur].state = 4;
	while (1) to_sched();
}

int pthread_join(pthread_t t, void **r)
{
	int i = (int)t - 1000;
	yield_();
	if (fail) return 0;
	if (i < 0 || i >= nth) { bad("join of a thread that was not created"); return ESRCH; }
	if (th[i].joined) { bad("thread joined twice"); return EINVAL; }
	while (th[i].state != 4 && !fail)
	{
		th[cur].state = 3;
		th[cur].join = i;
		to_sched();
	}
	th[i].joined = 1;
	vc_join(&th[cur].vc, &th[i].vc);
	if (r) *r = NULL;
	return 0;
}
int pthread_detach(pthread_t t) { th[(int)t - 1000].detached = 1; return 0; }
pthread_t pthread_self(void) { return (pthread_t)(cur + 1000); }
int sched_yield(void) { yield_(); return 0; }

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; Obj *o = obj(m); *o = (Obj) { .addr = m, .owner = -1, .inited = 1 }; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m)
{
	yield_();
	if (fail) return 0;
	Obj *o = obj(m);
	if (o->owner >= 0) bad("a mutex is destroyed while locked");
	o->destroyed = 1;
	return 0;
}
static int lock_(pthread_mutex_t *m, int try)
{
	yield_();
	if (fail) return 0;
	Obj *o = obj(m);
	if (o->destroyed) { bad("a destroyed mutex is locked"); return EINVAL; }
	if (o->owner == cur) { bad("a mutex is locked twice by one thread"); return EDEADLK; }
	if (try && o->owner >= 0) return EBUSY;
	while (o->owner >= 0 && !fail)
	{
		th[cur].state = 2;
		th[cur].wait = o;
		to_sched();
	}
	if (fail) return 0;
	o->owner = cur;
	vc_join(&th[cur].vc, &o->vc);
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return lock_(m, 0); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lock_(m, 1); }
static void unlock_(pthread_mutex_t *m)
{
	Obj *o = obj(m);
	if (o->owner != cur) { bad("a mutex is unlocked by a thread that does not hold it"); return; }
	o->owner = -1;
	o->vc = th[cur].vc;
	th[cur].vc.c[cur]++;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	yield_();
	if (fail) return 0;
	unlock_(m);
	return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { (void)c; yield_(); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	yield_();
	if (fail) return 0;
	unlock_(m);
	th[cur].state = 5;
	th[cur].wait = c;
	th[cur].signaled = 0;
	while (!th[cur].signaled && !fail) { th[cur].state = 5; to_sched(); }
	return lock_(m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void)t; (void)c; unlock_(m); yield_(); lock_(m, 0); return ETIMEDOUT; }
static void signal_(pthread_cond_t *c, int all)
{
	yield_();
	for (int i = 0; i < nth; i++)
	{
		if (th[i].state == 5 && th[i].wait == c) { th[i].signaled = 1; th[i].state = 1; if (!all) return; }
	}
}
int pthread_cond_signal(pthread_cond_t *c) { signal_(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { signal_(c, 1); return 0; }
int sem_init(sem_t *s, int p, unsigned v) { (void)p; obj(s)->count = (int)v; return 0; }
int sem_destroy(sem_t *s) { (void)s; return 0; }
int sem_wait(sem_t *s)
{
	acq_rel(s);
	Obj *o = obj(s);
	while (o->count <= 0 && !fail) { th[cur].state = 2; th[cur].wait = o; to_sched(); }
	o->count--;
	vc_join(&th[cur].vc, &o->vc);
	return 0;
}
int sem_post(sem_t *s) { acq_rel(s); obj(s)->count++; return 0; }

NORETURN void error_exit(const char *f, ...)
{
	(void)f;
	error_exited = 1;
	th[cur].state = 4;
	while (1) to_sched();
}
NORETURN void exit_compiler(int code) { error_exit("exit %d", code); }

static char pool[1 << 20];
static size_t pool_used;
void *calloc_arena(size_t n) { void *p = pool + pool_used; memset(p, 0, n); pool_used += (n + 15) & ~(size_t)15; if (pool_used > sizeof(pool)) abort(); return p; }

// the tasks
static int ran[MAXT], running[MAXT], returned;
static int ntasks, nthreads;
static Task tasks[MAXT];
static void the_task(void *arg)
{
	int i = (int)(intptr_t)arg;
	yield_();
	ran[i]++;
	running[i] = 1;
	yield_();
	running[i] = 0;
	if (returned) bad("task %d runs after taskqueue_run returned", i);
}

static void *boss(void *arg)
{
	(void)arg;
	Task **list = NULL;
	active = 0;
	for (int i = 0; i < ntasks; i++)
	{
		tasks[i] = (Task) { the_task, (void *)(intptr_t)i };
		vec_add(list, &tasks[i]);
	}
	active = 1;
	taskqueue_run(nthreads, list);
	if (fail) return NULL;
	returned = 1;
	for (int i = 0; i < ntasks; i++)
	{
		if (ran[i] != 1) bad("task %d ran %d times when taskqueue_run returned", i, ran[i]);
		if (running[i]) bad("task %d is running when taskqueue_run returned", i);
	}
	for (int i = 1; i < nth; i++) if (!th[i].joined && !th[i].detached) bad("thread %d was not joined", i);
	for (int i = 0; i < nobjs; i++) if (objs[i].owner >= 0) bad("a mutex is left locked");
	return NULL;
}

static int enabled(int i)
{
	switch (th[i].state)
	{
		case 1: return 1;
		case 2: return ((Obj *)th[i].wait)->owner < 0 && (!((Obj *)th[i].wait)->count || 1);
		case 3: return th[th[i].join].state == 4;
		default: return 0;
	}
}

static void run_one(void)
{
	for (int i = 0; i < nshadow; i++) shadow[shadow_used[i]].a = 0;
	nshadow = 0;
	nobjs = 0;
	pool_used = 0;
	memset(ran, 0, sizeof(ran));
	memset(running, 0, sizeof(running));
	returned = error_exited = 0;
	fail = NULL;
	ntrace = preempts = steps = 0;
	faults_left = fault_bound;
	nth = 1;
	cur = 0;
	Th *x = &th[0];
	memset(&x->vc, 0, sizeof(VC));
	x->vc.c[0] = 1;
	x->state = 1;
	x->fn = boss;
	getcontext(&x->ctx);
	if (!x->stack) x->stack = malloc(STACK);
	x->ctx.uc_stack.ss_sp = x->stack;
	x->ctx.uc_stack.ss_size = STACK;
	x->ctx.uc_link = &sched;
	makecontext(&x->ctx, (void (*)(void))thread_main, 1, 0);
	active = 1;
	while (!fail)
	{
		int en[MAXT], n = 0, live = 0;
		if (enabled(cur)) en[n++] = cur;
		for (int i = 0; i < nth; i++)
		{
			if (th[i].state != 4 && th[i].state) live++;
			if (i != cur && enabled(i)) en[n++] = i;
		}
		// the process ends with error_exit, whatever the other threads do
		if (error_exited) break;
		if (!n)
		{
			if (live) bad("deadlock: %d threads wait", live);
			break;
		}
		if (++steps > MAXSTEP) { bad("no end after %d steps", MAXSTEP); break; }
		int c = n > 1 ? choice(n, en[0] == cur) : 0;
		cur = en[c];
		th[cur].state = 1;
		swapcontext(&sched, &th[cur].ctx);
	}
	if (!fail && error_exited && !fault_bound) bad("error_exit was called");
	if (!fail && !error_exited && !returned) bad("taskqueue_run did not return");
	active = 0;
	schedules++;
	points += (unsigned long)ntrace;
	if ((unsigned long)ntrace > maxpoints) maxpoints = (unsigned long)ntrace;
}

// threads tasks bound faults limit [choices...]
int main(int argc, char **argv)
{
	nthreads = atoi(argv[1]);
	ntasks = atoi(argv[2]);
	bound = atoi(argv[3]);
	fault_bound = atoi(argv[4]);
	unsigned long limit = strtoul(argv[5], NULL, 10);
	int complete = 0;
	npre = 0;
	if (argc > 6)
	{
		for (int i = 6; i < argc; i++) pre[npre++] = atoi(argv[i]);
		run_one();
		printf("%s\n", fail ? fail : "ok");
		return fail != NULL;
	}
	while (1)
	{
		run_one();
		if (fail)
		{
			printf("FAIL %s\nSCHEDULE", fail);
			for (int i = 0; i < ntrace; i++) printf(" %d", trace[i]);
			printf("\n");
			return 1;
		}
		while (ntrace > 0 && trace[ntrace - 1] + 1 >= nopt[ntrace - 1]) ntrace--;
		if (!ntrace) { complete = 1; break; }
		memcpy(pre, trace, sizeof(int) * (size_t)ntrace);
		pre[ntrace - 1]++;
		npre = ntrace;
		if (schedules >= limit) break;
	}
	printf("OK %lu %lu %lu %d\n", schedules, points, maxpoints, complete);
	return 0;
}
