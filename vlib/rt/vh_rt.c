// Exhaustive explorer: runs a body once for every sequence of choices it can make (stateless depth-first search).
// The body asks vh_ch(n) for each nondeterministic decision; every combination is executed. Written in C and compiled
// by clang, so that the engine does not depend on the compiler under test.
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

#define MAXD 4096
#define MAXB 256
#define MAXV 12

typedef void (*body_fn)(void);
static struct { const char *name; body_fn fn; } bodies[MAXB];
static int nbodies;

static int choice[MAXD], arity[MAXD], depth, plen;
static bool replaying, in_body, pruned_by_shard;
static int shard, nshards = 1;
static sigjmp_buf env;
static char msg[1 << 16], key[1024];
static const char *cur_body = "";
static uint64_t execs, ticks, pruned, evals;
static int nviol;
static char seen_keys[512][1024];
static int nseen;
int vh_tier;
bool vh_verbose;

// --- distinct counters: open addressing sets of 64 bit hashes ---
typedef struct { uint64_t *t; uint64_t cap, n; } set64;
static set64 states, outcomes;
static void set_add(set64 *s, uint64_t h)
{
	if (!h) h = 1;
	if (!s->cap) { s->cap = 1 << 16; s->t = calloc(s->cap, 8); }
	if (s->n * 2 > s->cap)
	{
		if (s->cap >= (1u << 25)) return; // the count is then a lower bound
		set64 b = { calloc(s->cap * 2, 8), s->cap * 2, 0 };
		for (uint64_t i = 0; i < s->cap; i++) if (s->t[i]) set_add(&b, s->t[i]);
		free(s->t);
		*s = b;
	}
	uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 20;
	for (;; i++)
	{
		i &= s->cap - 1;
		if (s->t[i] == h) return;
		if (!s->t[i]) { s->t[i] = h; s->n++; return; }
	}
}
static uint64_t obs_h, trace_h;
static bool obs_used;
void vh_obs(uint64_t v) { obs_used = true; obs_h = (obs_h ^ v) * 0x100000001b3ull + (v >> 29); }
void vh_obs_bytes(const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) vh_obs(c[i]); }
void vh_state(uint64_t v) { set_add(&states, v * 0x9E3779B97F4A7C15ull + 12345); }
uint64_t vh_hash(const void *p, size_t n) { const unsigned char *c = p; uint64_t h = 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull; return h; }
void vh_tick(void) { ticks++; }
void vh_eval(uint64_t n) { evals += n; }

static void die(const char *fmt, ...)
{
	va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a);
	_exit(3);
}

static void print_choices(char *buf, size_t n)
{
	size_t o = 0;
	int d = depth < MAXD ? depth : MAXD;
	buf[0] = 0;
	for (int i = 0; i < d && o + 12 < n; i++) o += snprintf(buf + o, n - o, "%s%d", i ? "," : "", choice[i]);
}

static void violation(const char *kind)
{
	static char ch[MAXD * 5];
	print_choices(ch, sizeof ch);
	if (!key[0])
	{
		// body and message, numbers left out: one report per kind of failure
		size_t o = snprintf(key, sizeof key, "%s:%s:", cur_body, kind);
		for (char *p = msg; *p && o < 200; p++)
		{
			if (*p >= '0' && *p <= '9') { if (key[o - 1] != '#') key[o++] = '#'; }
			else key[o++] = *p <= ' ' ? '_' : *p;
		}
		key[o] = 0;
	}
	for (int i = 0; i < nseen; i++) if (!strcmp(seen_keys[i], key)) return;
	if (nseen < 512) strcpy(seen_keys[nseen++], key);
	for (char *p = msg; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
	printf("V\t%s\t%s\t%s\t%s: %s\n", cur_body, ch[0] ? ch : "-", key, kind, msg);
	fflush(stdout);
	nviol++;
}

static void stats(void)
{
	printf("S\t%s\texecutions=%llu\ttransitions=%llu\tstates=%llu\toutcomes=%llu\tpruned=%llu\tevals=%llu\n", cur_body,
		(unsigned long long)execs, (unsigned long long)ticks, (unsigned long long)states.n,
		(unsigned long long)outcomes.n, (unsigned long long)pruned, (unsigned long long)evals);
	fflush(stdout);
}

int vh_ch(int n)
{
	if (n <= 0) die("vh_ch(%d)\n", n);
	if (depth >= MAXD) die("choice depth exceeded\n");
	if (depth < plen)
	{
		if (choice[depth] >= n || (!replaying && arity[depth] != n)) die("DIVERGENCE body %s depth %d: %d of %d (was %d)\n", cur_body, depth, choice[depth], n, arity[depth]);
	}
	else
	{
		if (replaying) choice[depth] = 0;
		choice[depth] = 0;
		plen = depth + 1;
	}
	arity[depth] = n;
	int r = choice[depth++];
	if (!replaying && nshards > 1)
	{
		// shard on the first choices, up to the point where their number of combinations reaches 64
		uint64_t prod = 1, idx = 0;
		int i = 0;
		for (; i < depth; i++)
		{
			if (prod >= 64) break;
			idx = idx * arity[i] + choice[i];
			prod *= arity[i];
		}
		if (i == depth && prod >= 64 && (int)((idx * 7919 >> 3) % nshards) != shard)
		{
			pruned_by_shard = true;
			siglongjmp(env, 3);
		}
	}
	return r;
}

// A sequence ended before its shard was decided (fewer than 64 combinations): only shard 0 keeps it
static bool undecided(void)
{
	uint64_t prod = 1;
	for (int i = 0; i < depth; i++) { prod *= arity[i]; if (prod >= 64) return false; }
	return true;
}

void vh_key(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(key, sizeof key, fmt, a); va_end(a); }
void vh_fail(const char *fmt, ...)
{
	va_list a; va_start(a, fmt); vsnprintf(msg, sizeof msg, fmt, a); va_end(a);
	if (!in_body) { fprintf(stderr, "vh_fail outside a body: %s\n", msg); _exit(3); }
	siglongjmp(env, 1);
}
// records a failure and goes on
void vh_soft(const char *k, const char *fmt, ...)
{
	va_list a; va_start(a, fmt); vsnprintf(msg, sizeof msg, fmt, a); va_end(a);
	snprintf(key, sizeof key, "%s", k);
	violation("FAIL");
	key[0] = 0;
}
void vh_prune(void) { siglongjmp(env, 2); }
void vh_op(const char *fmt, ...)
{
	if (!vh_verbose) return;
	printf("  . ");
	va_list a; va_start(a, fmt); vprintf(fmt, a); va_end(a);
	printf("\n");
	fflush(stdout);
}
void vh_panic(const char *m, size_t n)
{
	if (!in_body) { fprintf(stderr, "panic outside a body: %.*s\n", (int)n, m); _exit(3); }
	snprintf(msg, sizeof msg, "panic: %.*s", (int)n, m);
	siglongjmp(env, 1);
}

// code that is expected to panic or trap: vh_try(fn, arg) is 0 if it returned, 1 if it panicked or trapped
static sigjmp_buf tryenv;
static volatile int in_try;
int vh_try(void (*fn)(void *), void *arg)
{
	in_try = 1;
	int r = sigsetjmp(tryenv, 1);
	if (!r) fn(arg);
	in_try = 0;
	return r;
}
void vh_panic_hook(const char *m, size_t n)
{
	if (in_try) siglongjmp(tryenv, 1);
	vh_panic(m, n);
}

static uint64_t last_execs;
static volatile uint64_t alive;
static int stuck;
void vh_alive(void) { alive++; }
static int hang_s = 10;
static void on_alarm(int s)
{
	(void)s;
	if (execs + alive == last_execs)
	{
		if (++stuck >= hang_s)
		{
			snprintf(msg, sizeof msg, "one execution takes over %d s", hang_s);
			violation("HANG");
			stats();
			_exit(4);
		}
		return;
	}
	stuck = 0;
	last_execs = execs + alive;
}
static char altstack[1 << 16];
static void on_sig(int s)
{
	if (in_try) siglongjmp(tryenv, 1 + s);
	if (!in_body) { static const char e[] = "fatal signal outside a body\n"; (void)!write(2, e, sizeof e - 1); _exit(3); }
	snprintf(msg, sizeof msg, "signal %d", s);
	siglongjmp(env, 4);
}

void vh_reg(const char *name, body_fn fn)
{
	if (nbodies == MAXB) die("too many bodies\n");
	bodies[nbodies].name = name;
	bodies[nbodies++].fn = fn;
}

static int maxviol = MAXV;
__attribute__((weak)) void vh_after_abort(void) {}
static void explore(body_fn fn)
{
	plen = 0;
	for (;;)
	{
		depth = 0;
		key[0] = 0;
		obs_h = 0; obs_used = false;
		pruned_by_shard = false;
		int r = sigsetjmp(env, 1);
		if (r == 0)
		{
			in_body = true;
			fn();
		}
		in_body = false;
		in_try = 0;
		if (r) vh_after_abort();
		bool skip = r == 3 || (nshards > 1 && shard != 0 && undecided());
		if (r == 2) pruned++;
		else if (!skip)
		{
			execs++;
			if (obs_used) set_add(&outcomes, obs_h);
			if (r == 1) violation("FAIL");
			if (r == 4) violation("CRASH");
		}
		if (nviol >= maxviol) { stats(); exit(0); }
		if (replaying) break;
		plen = depth;
		while (plen > 0 && choice[plen - 1] + 1 >= arity[plen - 1]) plen--;
		if (plen == 0) break;
		choice[plen - 1]++;
	}
	stats();
}

// vh_main: list | explore BODY SHARD NSHARDS | replay BODY CHOICES
int vh_main(int argc, char **argv)
{
	const char *t = getenv("VERIF_TIER");
	vh_tier = t && !strcmp(t, "thorough");
	if (getenv("VH_HANG")) hang_s = atoi(getenv("VH_HANG"));
	if (getenv("VH_MAXV")) maxviol = atoi(getenv("VH_MAXV"));
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	if (argc >= 2 && !strcmp(argv[1], "list"))
	{
		for (int i = 0; i < nbodies; i++) printf("B\t%s\n", bodies[i].name);
		fflush(stdout);
		return 0;
	}
	if (argc < 3) die("usage: list | explore BODY SHARD N | replay BODY CHOICES\n");
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_ONSTACK | SA_NODEFER };
	int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP };
	for (int i = 0; i < 6; i++) sigaction(sigs[i], &sa, NULL);
	struct sigaction al = { .sa_handler = on_alarm, .sa_flags = SA_RESTART | SA_ONSTACK };
	sigaction(SIGALRM, &al, NULL);
	struct itimerval it = { { 1, 0 }, { 1, 0 } };
	setitimer(ITIMER_REAL, &it, NULL);
	body_fn fn = NULL;
	for (int i = 0; i < nbodies; i++) if (!strcmp(bodies[i].name, argv[2])) { fn = bodies[i].fn; cur_body = bodies[i].name; }
	if (!fn) die("no body %s\n", argv[2]);
	if (!strcmp(argv[1], "explore"))
	{
		shard = argc > 3 ? atoi(argv[3]) : 0;
		nshards = argc > 4 ? atoi(argv[4]) : 1;
		explore(fn);
	}
	else
	{
		replaying = vh_verbose = true;
		int n = 0;
		if (argc > 3 && strcmp(argv[3], "-"))
			for (char *p = strtok(argv[3], ","); p; p = strtok(NULL, ",")) choice[n++] = atoi(p);
		plen = n;
		// plen is set by explore(): keep the prefix
		int keep = n;
		depth = 0; key[0] = 0;
		plen = keep;
		int r = sigsetjmp(env, 1);
		if (r == 0) { in_body = true; fn(); }
		in_body = false;
		execs++;
		if (r == 1) violation("FAIL");
		if (r == 4) violation("CRASH");
		stats();
	}
	return 0;
}

// --- guarded heap: redzones on both sides, poisoned fresh and freed memory, leak accounting ---
typedef struct gh { struct gh *next, *prev; size_t size; size_t align; void *raw; uint64_t magic; } gh;
#define MAGIC 0x6a09e667f3bcc908ull
#define RZ 64
static gh live = { &live, &live, 0, 0, 0, 0 };
static uint64_t live_count, live_bytes, fail_at, alloc_no, live_peak;
// quarantine of freed blocks, checked for writes after free
#define QN 64
static struct { void *raw; unsigned char *p; size_t n; } quar[QN];
static int qi;
void vh_heap_fail_at(uint64_t n) { fail_at = n; alloc_no = 0; }
uint64_t vh_heap_allocs(void) { return alloc_no; }
static gh *hdr(void *p) { return (gh *)((char *)p - RZ - sizeof(gh)); }
static void q_check(int i)
{
	if (!quar[i].raw) return;
	for (size_t k = 0; k < quar[i].n; k++) if (quar[i].p[k] != 0xDD)
	{
		free(quar[i].raw); quar[i].raw = NULL;
		vh_fail("heap: write after free (block of %zu bytes, offset %zu)", quar[i].n, k);
	}
	free(quar[i].raw);
	quar[i].raw = NULL;
}
void *vh_galloc(size_t size, size_t align, int zero)
{
	alloc_no++;
	if (fail_at && alloc_no == fail_at) return NULL;
	if (align < 16) align = 16;
	if (size > (1ull << 32)) return NULL;
	char *raw = malloc(size + align + 2 * RZ + sizeof(gh) + 16);
	if (!raw) return NULL;
	char *p = (char *)(((uintptr_t)raw + sizeof(gh) + RZ + align - 1) & ~(uintptr_t)(align - 1));
	gh *h = hdr(p);
	// not more aligned than asked for, so that a missing alignment shows
	h->raw = raw; h->size = size; h->align = align; h->magic = MAGIC;
	h->next = live.next; h->prev = &live; live.next->prev = h; live.next = h;
	memset(p - RZ, 0xA5, RZ);
	memset(p + size, 0xA5, RZ);
	memset(p, zero ? 0 : 0xCC, size);
	live_count++; live_bytes += size;
	if (live_bytes > live_peak) live_peak = live_bytes;
	return p;
}
static void g_verify(gh *h)
{
	unsigned char *p = (unsigned char *)h + sizeof(gh) + RZ;
	for (int i = 0; i < RZ; i++)
	{
		if (p[-1 - i] != 0xA5) vh_fail("heap: write before a block of %zu bytes, at offset %d", h->size, -1 - i);
		if (p[h->size + i] != 0xA5) vh_fail("heap: write past a block of %zu bytes, at offset %zu", h->size, h->size + i);
	}
}
static bool g_find(void *p)
{
	gh *x = hdr(p);
	if (live_count > 4096) return x->magic == MAGIC;
	for (gh *h = live.next; h != &live; h = h->next) if (h == x) return true;
	return false;
}
void vh_gfree(void *p)
{
	if (!p) return;
	if (!g_find(p)) vh_fail("heap: free of a pointer that is not a live block");
	gh *h = hdr(p);
	g_verify(h);
	h->next->prev = h->prev; h->prev->next = h->next;
	h->magic = 0;
	live_count--; live_bytes -= h->size;
	memset(p, 0xDD, h->size);
	int i = qi++ % QN;
	q_check(i);
	quar[i].raw = h->raw; quar[i].p = p; quar[i].n = h->size;
}
size_t vh_gsize(void *p) { if (!g_find(p)) vh_fail("heap: size of a pointer that is not a live block"); return hdr(p)->size; }
void *vh_grealloc(void *p, size_t size, size_t align)
{
	if (!g_find(p)) vh_fail("heap: realloc of a pointer that is not a live block");
	gh *h = hdr(p);
	void *n = vh_galloc(size, align ? align : h->align, 0);
	if (!n) return NULL;
	memcpy(n, p, h->size < size ? h->size : size);
	vh_gfree(p);
	return n;
}
void vh_heap_check(void) { for (gh *h = live.next; h != &live; h = h->next) g_verify(h); }
uint64_t vh_heap_live(void) { return live_count; }
uint64_t vh_heap_bytes(void) { return live_bytes; }
// forget everything (start of an execution; blocks left by an aborted execution are released)
void vh_heap_reset(void)
{
	for (gh *h = live.next; h != &live;) { gh *n = h->next; free(h->raw); h = n; }
	live.next = live.prev = &live;
	live_count = live_bytes = live_peak = 0;
	fail_at = alloc_no = 0;
	for (int i = 0; i < QN; i++) { if (quar[i].raw) free(quar[i].raw); quar[i].raw = NULL; }
}
// end of an execution: nothing may be left, no block may have been damaged
void vh_heap_end(void)
{
	vh_heap_check();
	for (int i = 0; i < QN; i++) q_check(i);
	if (live_count) vh_fail("heap: %llu block(s), %llu byte(s) leaked", (unsigned long long)live_count, (unsigned long long)live_bytes);
}
