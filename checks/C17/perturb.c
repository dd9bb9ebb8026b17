// LD_PRELOAD: changes what a program must not depend on. PB_DIR=1: directories are listed in reverse, PB_DIR=2: rotated by one.
// PB_MALLOC=1: malloc gives falling addresses, 2: every block in its own page-sized slot in bit-reversed order; new memory holds 0xA5.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <errno.h>

static int mode = -1, dmode = -1;
static int env(const char *n) { const char *v = getenv(n); return v ? v[0] - '0' : 0; }

#define MAXD 4096
typedef struct { DIR *d; struct dirent *e; int n, i; } D;
static D ds[64];
static struct dirent *(*rd)(DIR *);
static struct dirent *next(DIR *d)
{
	if (!rd) rd = (struct dirent *(*)(DIR *))dlsym(RTLD_NEXT, "readdir");
	if (dmode < 0) dmode = env("PB_DIR");
	if (!dmode) return rd(d);
	D *x = NULL;
	for (int i = 0; i < 64; i++) if (ds[i].d == d) x = &ds[i];
	if (!x)
	{
		for (int i = 0; i < 64; i++) if (!ds[i].d) { x = &ds[i]; break; }
		if (!x) return rd(d);
		x->d = d;
		x->e = mmap(NULL, sizeof(struct dirent) * MAXD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		struct dirent *e;
		while ((e = rd(d)) && x->n < MAXD) { x->e[x->n] = *e; x->n++; }
	}
	if (x->i >= x->n) return NULL;
	int k = x->i++;
	return dmode == 1 ? &x->e[x->n - 1 - k] : &x->e[(k + 1) % x->n];
}
struct dirent *readdir(DIR *d) { return next(d); }
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)next(d); }
int closedir(DIR *d)
{
	static int (*r)(DIR *);
	if (!r) r = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
	for (int i = 0; i < 64; i++) if (ds[i].d == d)
	{
		munmap(ds[i].e, sizeof(struct dirent) * MAXD);
		memset(&ds[i], 0, sizeof(D));
	}
	return r(d);
}

// malloc
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);
#define SIZE (3ull << 30)
static char *base, *top;
static int lk;
static void lock(void) { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) {} }
static void unlock(void) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }
static int getmode(void)
{
	if (mode < 0)
	{
		extern char **environ;
		mode = 0;
		for (char **e = environ; e && *e; e++) if (!strncmp(*e, "PB_MALLOC=", 10)) mode = (*e)[10] - '0';
	}
	return mode;
}
static unsigned nslot;
static void *get(size_t al, size_t n)
{
	lock();
	if (!base)
	{
		base = mmap(NULL, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (base == MAP_FAILED) abort();
		top = base + SIZE;
	}
	if (al < 16) al = 16;
	char *r;
	if (mode == 2 && n <= 480 && al == 16 && nslot < (1u << 20))
	{
		// 2^20 slots of 512 bytes in bit-reversed order
		unsigned v = nslot++, w = 0;
		for (int i = 0; i < 20; i++) if (v & (1u << i)) w |= 1u << (19 - i);
		r = base + (size_t)w * 512 + 16;
	}
	else
	{
		uintptr_t t = (uintptr_t)top - n;
		t &= ~(uintptr_t)(al - 1);
		r = (char *)t;
		top = r - 16;
		if (top < base + (512u << 20) + 4096) abort();
	}
	((size_t *)r)[-1] = n;
	unlock();
	memset(r, 0xA5, n);
	return r;
}
static int ours(void *p) { return base && (char *)p >= base && (char *)p < base + SIZE; }
void *malloc(size_t n) { return getmode() ? get(16, n) : __libc_malloc(n); }
void *calloc(size_t a, size_t b)
{
	if (!getmode()) return __libc_calloc(a, b);
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	void *p = get(16, n);
	memset(p, 0, n);
	return p;
}
void *realloc(void *p, size_t n)
{
	if (!getmode() || (p && !ours(p))) return __libc_realloc(p, n);
	void *q = get(16, n);
	if (p) { size_t o = ((size_t *)p)[-1]; memcpy(q, p, o < n ? o : n); }
	return q;
}
void free(void *p) { if (p && !ours(p)) __libc_free(p); }
void *memalign(size_t a, size_t n) { return getmode() ? get(a, n) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return 0; }
size_t malloc_usable_size(void *p)
{
	if (p && ours(p)) return ((size_t *)p)[-1];
	static size_t (*r)(void *);
	if (!r) r = (size_t (*)(void *))dlsym(RTLD_NEXT, "malloc_usable_size");
	return r(p);
}

int scandir(const char *path, struct dirent ***list, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
	DIR *d = opendir(path);
	if (!d) return -1;
	struct dirent **l = malloc(sizeof(void *) * MAXD), *e;
	int n = 0;
	while (n < MAXD && (e = readdir(d)))
	{
		if (filter && !filter(e)) continue;
		l[n] = malloc(sizeof(struct dirent));
		*l[n++] = *e;
	}
	closedir(d);
	if (cmp) qsort(l, (size_t)n, sizeof(void *), (int (*)(const void *, const void *))cmp);
	*list = l;
	return n;
}
