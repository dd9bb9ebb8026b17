// Runs the accessors of every generated bitstruct layout against an oracle working bit by bit.
#include <stdio.h>
#include <string.h>
#include <stdint.h>
typedef __int128 i128;
typedef unsigned __int128 u128;
typedef struct { void (*set)(void *, i128 *); void (*get)(void *, i128 *); void (*add)(void *, i128 *); void (*inc)(void *, i128 *); void (*dinit)(void *, i128 *); void (*ninit)(void *, i128 *);
	void *kc; int lo, hi, bytes, flags, tsize, idx; } Spec;
enum { SIGNED = 1, BIG = 2, ARR = 4, BOOL = 8 };
extern Spec specs[]; extern int nspecs;
extern i128 kvals[2];
// position of member bit k in memory
static int pos(Spec *s, int k)
{
	int w = s->hi - s->lo + 1;
	if (s->flags & ARR)
	{
		if ((s->flags & BIG) && w > 8) k = (w / 8 - 1 - k / 8) * 8 + k % 8;
		return s->lo + k;
	}
	int b = s->lo + k;
	if (s->flags & BIG) b = (s->bytes - 1 - b / 8) * 8 + b % 8;
	return b;
}
static void oset(Spec *s, unsigned char *m, i128 v)
{
	for (int k = 0; k <= s->hi - s->lo; k++)
	{
		int p = pos(s, k);
		m[p / 8] = m[p / 8] & ~(1 << p % 8) | (int)(((u128)v >> k) & 1) << p % 8;
	}
}
// the writes the compiler loses (recorded finding): a range of a char array ending inside a byte it starts, with that byte zeroed instead
static int known_lost;
static void kset(Spec *s, unsigned char *m, i128 v)
{
	oset(s, m, v);
	known_lost = (s->flags & ARR) && !(s->flags & BOOL) && s->hi % 8 != 7 && !(s->lo / 8 == s->hi / 8 && s->lo % 8);
	if (!known_lost) return;
	for (int p = s->hi & ~7; p <= s->hi; p++) if (p >= s->lo) m[p / 8] &= ~(1 << p % 8);
}
static i128 oget(Spec *s, unsigned char *m)
{
	u128 v = 0;
	int w = s->hi - s->lo + 1;
	for (int k = 0; k < w; k++) { int p = pos(s, k); v |= (u128)(m[p / 8] >> p % 8 & 1) << k; }
	if ((s->flags & SIGNED) && (v >> (w - 1) & 1) && w < 128) v |= ~(u128)0 << w;
	return (i128)v;
}
static void fail(Spec *s, const char *k, int pat, i128 v, unsigned char *m, unsigned char *e)
{
	printf("F %d %s pattern %02x value %llx_%016llx got ", s->idx, k, pat, (long long)(v >> 64), (long long)v);
	for (int i = 0; i < s->bytes; i++) printf("%02x", m[i]);
	printf(" want ");
	for (int i = 0; i < s->bytes; i++) printf("%02x", e[i]);
	printf("\n");
}
static i128 wrapt(Spec *s, i128 v)
{
	int w = s->tsize * 8;
	if (w == 128) return v;
	u128 x = (u128)v & (((u128)1 << w) - 1);
	if ((s->flags & SIGNED) && (x >> (w - 1) & 1)) x |= ~(u128)0 << w;
	return (i128)x;
}
void run(void);
int main(void)
{
	long n = 0, bad = 0;
	static const unsigned char pats[] = { 0, 0xff, 0xa5, 0x5a, 0x96 };
	for (int i = 0; i < nspecs; i++)
	{
		Spec *s = &specs[i];
		int w = s->hi - s->lo + 1, fails = 0, lost = 0;
		i128 vals[1200]; int nv = 0;
		if (s->flags & BOOL) { vals[nv++] = 0; vals[nv++] = 1; }
		else
		{
			if (w <= 6) for (int k = 0; k < 1 << w; k++) vals[nv++] = k;
			else for (int k = 0; k < w; k++) { vals[nv++] = (i128)((u128)1 << k); vals[nv++] = (i128)~((u128)1 << k); if (k % 5 == 0) { vals[nv++] = (i128)(((u128)1 << k) - 1); vals[nv++] = -(i128)((u128)1 << k); } }
			for (int k = w; k <= w + 1 && k < 128; k++) vals[nv++] = (i128)((u128)1 << k);
			vals[nv++] = -1; vals[nv++] = (i128)((u128)0x0123456789abcdefULL << 64 | 0xfedcba9876543210ULL); vals[nv++] = (i128)((u128)0x9abcdef0aa55c33cULL << 64 | 0x8142241812345679ULL);
		}
		for (int p = 0; p < 5 && fails < 3; p++) for (int k = 0; k < nv && fails < 3; k++)
		{
			_Alignas(16) unsigned char buf[64], ref[64], kref[64];
			unsigned char *m = buf + 16, *e = ref + 16, *ke = kref + 16;
			i128 v = vals[k], r;
#define START memset(buf, pats[p], 64); memset(ref, pats[p], 64); for (int z = 0; z < s->bytes; z++) m[z] = e[z] = pats[p] ^ (z * 0x3b & (p > 1 ? 0xff : 0)); n++;
#define SET(x) i128 sv = (x); memcpy(kref, ref, 64); kset(s, ke, sv); oset(s, e, sv);
#define CHECK(name) if (known_lost && memcmp(buf, ref, 64) && !memcmp(buf, kref, 64)) { if (!lost) fail(s, "lost", pats[p], v, m, e); lost = 1; memcpy(ref, kref, 64); } else if (memcmp(buf, ref, 64)) { fail(s, name, pats[p], v, m, e); bad++; fails++; continue; }
			START r = v; s->set(m, &r); { SET(v) CHECK("write") }
			r = 0x5555; s->get(m, &r); if (r != oget(s, e)) { fail(s, "read", pats[p], r, m, e); bad++; fails++; continue; } if (memcmp(buf, ref, 64)) { fail(s, "read changes", pats[p], v, m, e); bad++; fails++; continue; }
			if (s->add)
			{
				START r = v; s->add(m, &r); { SET(oget(s, e) + v) CHECK("compound") }
				START s->inc(m, &r); i128 old = oget(s, e); { SET(old + 1) CHECK("increment") }
				if (r != old) { fail(s, "increment result", pats[p], r, m, e); bad++; fails++; continue; }
			}
			START r = v; s->dinit(m, &r); memset(e, 0, s->bytes); { SET(v) CHECK("initializer") }
			START r = v; s->ninit(m, &r); memset(e, 0, s->bytes); { SET(v) CHECK("nested initializer") }
		}
		for (int k = 0; k < 2; k++)
		{
			unsigned char e[64] = { 0 }, *m = (unsigned char *)s->kc + k * s->bytes;
			i128 v = kvals[k];
			if (s->flags & BOOL) v = k == 0;
			oset(s, e, v);
			n++;
			if (memcmp(m, e, s->bytes)) { fail(s, "constant", k, v, m, e); bad++; }
		}
	}
	printf("N %ld %ld\n", n, bad);
	return 0;
}
