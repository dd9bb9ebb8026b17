// Linked into a c3c whose C sources are compiled with -fsanitize=thread and -Dpthread_create=vs_pthread_create etc.: one thread runs at
// a time, the schedule is a list of choices (VS_CHOICES, continued with choice 0), every choice point is written to the file VS_TRACE.
// Data races between the threads of the C sources are found with vector clocks over the calls that -fsanitize=thread puts at every access.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>

#define MAXT 40
typedef struct { unsigned c[MAXT]; } VC;
enum { UNUSED, READY, LOCK, JOIN, DONE, COND, SEM };
typedef struct
{
	int state;
	void *wait;
	int join;
	void *(*fn)(void *);
	void *arg;
	VC vc;
	int signaled, joined;
	pthread_t real;
	pthread_cond_t cv;
	uintptr_t lo, hi;
} Th;
static Th th[MAXT];
static int nth = 1, cur, live = 0;
static __thread int me = 0;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static int tracefd = -1, bound = 0, preempts;
static const char *choices;
static int inited;
extern char __executable_start;

static void put(const char *f, ...)
{
	char b[300];
	va_list a;
	va_start(a, f);
	int n = vsnprintf(b, sizeof(b), f, a);
	va_end(a);
	if (tracefd >= 0 && write(tracefd, b, (size_t)n) < 0) {}
}

static void init(void)
{
	if (inited) return;
	inited = 1;
	choices = getenv("VS_CHOICES");
	const char *t = getenv("VS_TRACE");
	if (t) tracefd = open(t, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	const char *b = getenv("VS_BOUND");
	bound = b ? atoi(b) : 0;
	th[0].state = READY;
	th[0].vc.c[0] = 1;
	for (int i = 0; i < MAXT; i++) pthread_cond_init(&th[i].cv, NULL);
}

static int choice(int n, int cost0)
{
	int c = 0;
	if (choices && *choices)
	{
		c = (int)strtol(choices, (char **)&choices, 10);
		if (*choices == ',') choices++;
	}
	if (cost0 && preempts >= bound) n = 1;
	if (c >= n) c = 0;
	put("C %d %d\n", c, n);
	if (cost0 && c) preempts++;
	return c;
}

static int enabled(int i)
{
	switch (th[i].state)
	{
		case READY: return 1;
		case JOIN: return th[th[i].join].state == DONE;
		default: return 0;
	}
}

static void hand(void)
{
	pthread_cond_signal(&th[cur].cv);
}

// called with the baton; gives it to a thread that can run, comes back with it
static void schedule(void)
{
	int en[MAXT], n = 0;
	int self = me;
	if (enabled(self)) en[n++] = self;
	for (int i = 0; i < nth; i++) if (i != self && enabled(i)) en[n++] = i;
	if (!n)
	{
		put("DEADLOCK\n");
		_exit(97);
	}
	int c = n > 1 ? choice(n, en[0] == self) : 0;
	if (en[c] == self) { th[self].state = READY; return; }
	pthread_mutex_lock(&big);
	cur = en[c];
	th[cur].state = READY;
	hand();
	if (th[self].state != DONE) while (cur != self) pthread_cond_wait(&th[self].cv, &big);
	pthread_mutex_unlock(&big);
}

static inline int active(void) { return live > 0; }
static void point(void) { if (active() && cur == me) schedule(); }
static void vc_join(VC *a, const VC *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

// synchronization objects
typedef struct { void *addr; int owner; VC vc; int count; } Obj;
static Obj objs[256];
static int nobjs;
static Obj *obj(void *p)
{
	for (int i = 0; i < nobjs; i++) if (objs[i].addr == p) return &objs[i];
	if (nobjs == 256) { put("RACE too many objects\n"); _exit(98); }
	objs[nobjs] = (Obj) { .addr = p, .owner = -1 };
	return &objs[nobjs++];
}

// shadow memory
typedef struct { uintptr_t a; int wt; unsigned wc; uintptr_t wpc, rpc; unsigned rc[MAXT]; } Sh;
#define NSH (1 << 17)
static Sh shadow[NSH];
static unsigned nshadow;
static unsigned hash(uintptr_t a) { return (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 40) % NSH; }
static Sh *sh(uintptr_t a, int add)
{
	unsigned h = hash(a);
	while (shadow[h].a && shadow[h].a != a) h = (h + 1) % NSH;
	if (shadow[h].a) return &shadow[h];
	if (!add) return NULL;
	if (++nshadow > NSH * 3 / 4) { put("FULL\n"); _exit(98); }
	memset(&shadow[h], 0, sizeof(Sh));
	shadow[h].a = a;
	shadow[h].wt = -1;
	return &shadow[h];
}
static void forget(void *p, size_t n)
{
	if (!active() || !nshadow) return;
	uintptr_t a = (uintptr_t)p;
	for (size_t i = 0; i < n; i++)
	{
		Sh *s = sh(a + i, 0);
		if (s) { memset(s->rc, 0, sizeof(s->rc)); s->wt = -1; }
	}
}
static int races;
static void access_(void *p, size_t n, int w, void *pc)
{
	if (!active() || cur != me) return;
	uintptr_t a = (uintptr_t)p;
	int t = me;
	if (t && a >= th[t].lo && a < th[t].hi) return;
	VC *v = &th[t].vc;
	for (size_t i = 0; i < n; i++)
	{
		Sh *s = sh(a + i, 1);
		uintptr_t other = 0;
		if (s->wt >= 0 && s->wt != t && s->wc > v->c[s->wt]) other = s->wpc;
		if (!other && w) for (int k = 0; k < MAXT; k++) if (k != t && s->rc[k] > v->c[k]) other = s->rpc;
		if (other && races < 20)
		{
			races++;
			uintptr_t base = (uintptr_t)&__executable_start;
			put("RACE %lx %lx %s\n", (unsigned long)((uintptr_t)pc - base), (unsigned long)(other - base), w ? "write" : "read");
		}
		if (w) { s->wt = t; s->wc = v->c[t]; s->wpc = (uintptr_t)pc; }
		else { s->rc[t] = v->c[t]; s->rpc = (uintptr_t)pc; }
		if (other) return;
	}
}
#define PC __builtin_return_address(0)
#define RW(n) \
void __tsan_read##n(void *p) { access_(p, n, 0, PC); } \
void __tsan_write##n(void *p) { access_(p, n, 1, PC); } \
void __tsan_unaligned_read##n(void *p) { access_(p, n, 0, PC); } \
void __tsan_unaligned_write##n(void *p) { access_(p, n, 1, PC); } \
void __tsan_read_write##n(void *p) { access_(p, n, 1, PC); } \
void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 1, PC); } \
void __tsan_volatile_read##n(void *p) { access_(p, n, 0, PC); } \
void __tsan_volatile_write##n(void *p) { access_(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { access_(p, 8, 0, PC); }
void __tsan_read_range(void *p, size_t n) { access_(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((void*)s, n, 0, PC); access_(d, n, 1, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_((void*)s, n, 0, PC); access_(d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, 1, PC); return memset(d, c, n); }
static void acq_rel(void *p)
{
	if (!active() || cur != me) return;
	point();
	Obj *o = obj(p);
	vc_join(&th[me].vc, &o->vc);
	vc_join(&o->vc, &th[me].vc);
	th[me].vc.c[me]++;
}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int o) { (void)o; acq_rel((void*)p); return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = v; return q; } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = (T)(q + v); return q; } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = (T)(q - v); return q; } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = q & v; return q; } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = q | v; return q; } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { (void)o; acq_rel((void*)p); T q = *p; *p = q ^ v; return q; } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { (void)o; (void)f; acq_rel((void*)p); T q = *p; if (q == e) *p = v; return q; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; acq_rel((void*)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, o, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; static int f; acq_rel(&f); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

// memory of the C sources: what was known of the bytes ends with malloc and free
void *vs_malloc(size_t n) { void *p = malloc(n); forget(p, n); return p; }
void *vs_calloc(size_t a, size_t b) { void *p = calloc(a, b); forget(p, a * b); return p; }
void *vs_realloc(void *q, size_t n) { if (q) forget(q, malloc_usable_size(q)); void *p = realloc(q, n); forget(p, n); return p; }
void vs_free(void *p) { if (p) forget(p, malloc_usable_size(p)); free(p); }

// threads
static void *start(void *p)
{
	Th *x = p;
	me = (int)(x - th);
	pthread_attr_t at;
	void *lo; size_t sz;
	pthread_getattr_np(pthread_self(), &at);
	pthread_attr_getstack(&at, &lo, &sz);
	pthread_attr_destroy(&at);
	x->lo = (uintptr_t)lo;
	x->hi = (uintptr_t)lo + sz;
	pthread_mutex_lock(&big);
	while (cur != me) pthread_cond_wait(&x->cv, &big);
	pthread_mutex_unlock(&big);
	void *r = x->fn(x->arg);
	x->state = DONE;
	schedule();
	return r;
}
int vs_pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	init();
	if (nth == MAXT) { put("RACE too many threads\n"); _exit(98); }
	point();
	int i = nth++;
	Th *x = &th[i];
	x->state = READY;
	x->fn = fn;
	x->arg = arg;
	x->vc = th[me].vc;
	x->vc.c[i]++;
	th[me].vc.c[me]++;
	live++;
	if (pthread_create(&x->real, attr, start, x)) { put("RACE cannot make a thread\n"); _exit(98); }
	*t = (pthread_t)i;
	return 0;
}
void vs_pthread_exit(void *r)
{
	th[me].state = DONE;
	schedule();
	pthread_exit(r);
}
int vs_pthread_join(pthread_t t, void **r)
{
	int i = (int)t;
	point();
	if (th[i].joined) return ESRCH;
	th[me].state = JOIN;
	th[me].join = i;
	schedule();
	while (th[i].state != DONE) { th[me].state = JOIN; schedule(); }
	pthread_join(th[i].real, r);
	th[i].joined = 1;
	live--;
	vc_join(&th[me].vc, &th[i].vc);
	return 0;
}
int vs_pthread_detach(pthread_t t) { return pthread_detach(th[(int)t].real); }
pthread_t vs_pthread_self(void) { return (pthread_t)me; }
int vs_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; *obj(m) = (Obj) { .addr = m, .owner = -1 }; return 0; }
int vs_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
static void wake(int st, void *p, int all)
{
	for (int i = 0; i < nth; i++) if (th[i].state == st && th[i].wait == p) { th[i].state = READY; th[i].signaled = 1; if (!all) return; }
}
static int lock_(pthread_mutex_t *m, int try)
{
	point();
	Obj *o = obj(m);
	if (try && o->owner >= 0) return EBUSY;
	while (o->owner >= 0) { th[me].state = LOCK; th[me].wait = o; schedule(); }
	o->owner = me;
	vc_join(&th[me].vc, &o->vc);
	return 0;
}
int vs_pthread_mutex_lock(pthread_mutex_t *m) { return lock_(m, 0); }
int vs_pthread_mutex_trylock(pthread_mutex_t *m) { return lock_(m, 1); }
static void unlock_(pthread_mutex_t *m)
{
	Obj *o = obj(m);
	o->owner = -1;
	vc_join(&o->vc, &th[me].vc);
	th[me].vc.c[me]++;
	wake(LOCK, o, 1);
}
int vs_pthread_mutex_unlock(pthread_mutex_t *m) { unlock_(m); point(); return 0; }
int vs_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; return 0; }
int vs_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int vs_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	unlock_(m);
	th[me].signaled = 0;
	while (!th[me].signaled) { th[me].state = COND; th[me].wait = c; schedule(); }
	return lock_(m, 0);
}
int vs_pthread_cond_signal(pthread_cond_t *c) { wake(COND, c, 0); point(); return 0; }
int vs_pthread_cond_broadcast(pthread_cond_t *c) { wake(COND, c, 1); point(); return 0; }
int vs_sem_init(sem_t *s, int p, unsigned v) { (void)p; *obj(s) = (Obj) { .addr = s, .owner = -1, .count = (int)v }; return 0; }
int vs_sem_destroy(sem_t *s) { (void)s; return 0; }
int vs_sem_wait(sem_t *s)
{
	acq_rel(s);
	Obj *o = obj(s);
	while (o->count <= 0) { th[me].state = SEM; th[me].wait = o; schedule(); }
	o->count--;
	vc_join(&th[me].vc, &o->vc);
	return 0;
}
int vs_sem_post(sem_t *s) { acq_rel(s); obj(s)->count++; wake(SEM, obj(s), 1); return 0; }

// files: what the tasks share outside the memory
static void *real_(const char *n) { return dlsym(RTLD_NEXT, n); }
int open(const char *p, int f, ...)
{
	static int (*r)(const char *, int, ...);
	if (!r) r = (int (*)(const char *, int, ...))real_("open");
	va_list a;
	va_start(a, f);
	int m = va_arg(a, int);
	va_end(a);
	point();
	return r(p, f, m);
}
int open64(const char *p, int f, ...)
{
	static int (*r)(const char *, int, ...);
	if (!r) r = (int (*)(const char *, int, ...))real_("open64");
	va_list a;
	va_start(a, f);
	int m = va_arg(a, int);
	va_end(a);
	point();
	return r(p, f, m);
}
FILE *fopen(const char *p, const char *m)
{
	static FILE *(*r)(const char *, const char *);
	if (!r) r = (FILE *(*)(const char *, const char *))real_("fopen");
	point();
	return r(p, m);
}
int close(int fd)
{
	static int (*r)(int);
	if (!r) r = (int (*)(int))real_("close");
	point();
	return r(fd);
}
int unlink(const char *p)
{
	static int (*r)(const char *);
	if (!r) r = (int (*)(const char *))real_("unlink");
	point();
	return r(p);
}
int rename(const char *p, const char *q)
{
	static int (*r)(const char *, const char *);
	if (!r) r = (int (*)(const char *, const char *))real_("rename");
	point();
	return r(p, q);
}
int mkdir(const char *p, unsigned m)
{
	static int (*r)(const char *, unsigned);
	if (!r) r = (int (*)(const char *, unsigned))real_("mkdir");
	point();
	return r(p, m);
}
