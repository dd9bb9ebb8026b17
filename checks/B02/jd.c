// Every short document: the compiler's JSON reader (src/utils/json.c, compiled in here) against an independent reader.
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdint.h>
#include <stdarg.h>
#include "utils/lib.h"
#include "utils/json.h"

// ---------------------------------------------------------------- memory of one document
static char *pool; static size_t pool_used; enum { POOL = 64 << 20 };
void *my_alloc(size_t n)
{
	n = (n + 15) & ~(size_t)15;
	if (pool_used + n > POOL) abort();
	void *p = pool + pool_used;
	memset(p, 0, n);
	pool_used += n;
	return p;
}

static sigjmp_buf jump;
static volatile int armed;
static void on_signal(int s) { if (armed) { armed = 0; siglongjmp(jump, s); } _exit(99); }

void exit_compiler(int c) { (void)c; raise(SIGABRT); _exit(98); }

// ---------------------------------------------------------------- output of a value
typedef struct { char *s; size_t n, cap; } Buf;
static void put(Buf *b, const char *s, size_t n)
{
	if (b->n + n + 1 > b->cap) b->s = realloc(b->s, b->cap = (b->n + n + 1) * 2 + 64);
	memcpy(b->s + b->n, s, n); b->n += n; b->s[b->n] = 0;
}
static void puts_(Buf *b, const char *s) { put(b, s, strlen(s)); }
static void putd(Buf *b, double d) { char t[64]; snprintf(t, 64, "%.17g", d == 0 ? 0.0 : d); puts_(b, t); }

static void dump(Buf *b, JSONObject *o)
{
	if (!o) { puts_(b, "null"); return; }
	switch (o->type)
	{
		case J_BOOL: puts_(b, o->b ? "true" : "false"); return;
		case J_NUMBER: putd(b, o->f); return;
		case J_STRING: puts_(b, "<"); puts_(b, o->str); puts_(b, ">"); return;
		case J_ARRAY:
			puts_(b, "[");
			for (unsigned i = 0; i < vec_size(o->elements); i++) { dump(b, o->elements[i]); puts_(b, ","); }
			puts_(b, "]");
			return;
		case J_OBJECT:
			puts_(b, "{");
			for (unsigned i = 0; i < vec_size(o->members); i++) { puts_(b, "<"); puts_(b, o->keys[i]); puts_(b, ">:"); dump(b, o->members[i]); puts_(b, ","); }
			puts_(b, "}");
			return;
		case J_ERROR: puts_(b, "ERROR"); return;
	}
	puts_(b, "?");
}

// ---------------------------------------------------------------- the reference reader: works on characters, no tokens
typedef struct { const char *p; int line, line2, depth, bad; Buf *o; } R;
static void blanks(R *r)
{
	for (;;)
	{
		char c = *r->p;
		if (c == ' ' || c == '\t' || c == '\r' || c == '\v') r->p++;
		else if (c == '\n') { r->p++; r->line++; }
		else if (c == '/' && r->p[1] == '/') { while (*r->p && *r->p != '\n') r->p++; }
		else if (c == '/' && r->p[1] == '*')
		{
			const char *e = strstr(r->p + 2, "*/");
			const char *stop = e ? e + 2 : r->p + strlen(r->p);
			for (; r->p < stop; r->p++) if (*r->p == '\n') r->line++;
			if (!e) { r->bad = 1; return; }
		}
		else return;
	}
}
static int dig(char c) { return c >= '0' && c <= '9'; }
static int hexv(char c) { if (dig(c)) return c - '0'; c |= 32; return c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int hex4(R *r)
{
	int v = 0;
	for (int i = 0; i < 4; i++) { int h = hexv(*r->p); if (h < 0) { r->bad = 1; return 0; } v = v * 16 + h; r->p++; }
	return v;
}
static void string(R *r)
{
	r->p++;
	puts_(r->o, "<");
	while (*r->p != '"')
	{
		char c = *r->p;
		if (!c) { r->bad = 1; return; }
		if (c == '\n') r->line++;
		if (c != '\\') { put(r->o, &c, 1); r->p++; continue; }
		c = r->p[1];
		const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t", *at = c ? strchr(from, c) : NULL;
		if (at) { put(r->o, to + (at - from), 1); r->p += 2; continue; }
		if (c != 'u') { r->bad = 1; return; }
		r->p += 2;
		int v = hex4(r);
		if (r->bad) return;
		if (v >= 0xD800 && v <= 0xDBFF)
		{
			if (r->p[0] != '\\' || r->p[1] != 'u') { r->bad = 1; return; }
			r->p += 2;
			int w = hex4(r);
			if (r->bad || w < 0xDC00 || w > 0xDFFF) { r->bad = 1; return; }
			v = 0x10000 + (v - 0xD800) * 1024 + w - 0xDC00;
		}
		else if ((v >= 0xDC00 && v <= 0xDFFF) || !v) { r->bad = 1; return; }
		char u[4]; int n;
		if (v < 0x80) { u[0] = v; n = 1; }
		else if (v < 0x800) { u[0] = 0xC0 + v / 64; u[1] = 0x80 + v % 64; n = 2; }
		else if (v < 0x10000) { u[0] = 0xE0 + v / 4096; u[1] = 0x80 + v / 64 % 64; u[2] = 0x80 + v % 64; n = 3; }
		else { u[0] = 0xF0 + v / 262144; u[1] = 0x80 + v / 4096 % 64; u[2] = 0x80 + v / 64 % 64; u[3] = 0x80 + v % 64; n = 4; }
		put(r->o, u, n);
	}
	r->p++;
	puts_(r->o, ">");
}
static void number(R *r)
{
	const char *s = r->p;
	if (*r->p == '-') r->p++;
	if (!dig(*r->p)) { r->bad = 1; return; }
	if (*r->p == '0') r->p++; else while (dig(*r->p)) r->p++;
	if (dig(*r->p)) { r->bad = 1; return; }
	if (*r->p == '.') { r->p++; if (!dig(*r->p)) { r->bad = 1; return; } while (dig(*r->p)) r->p++; }
	if ((*r->p | 32) == 'e') { r->p++; if (*r->p == '+' || *r->p == '-') r->p++; if (!dig(*r->p)) { r->bad = 1; return; } while (dig(*r->p)) r->p++; }
	char t[256]; size_t n = r->p - s; if (n > 255) n = 255;
	memcpy(t, s, n); t[n] = 0;
	double d; sscanf(t, "%lf", &d);
	if (d > 1.7976931348623157e308 || d < -1.7976931348623157e308) { r->bad = 1; return; }
	putd(r->o, d);
}
static void value(R *r)
{
	char c = *r->p;
	if (c == '"') { string(r); return; }
	if (c == '-' || dig(c)) { number(r); return; }
	if (c == '{' || c == '[')
	{
		char end = c == '{' ? '}' : ']';
		if (r->depth++ == 1000) { r->bad = 1; return; }
		put(r->o, &c, 1);
		r->p++;
		blanks(r);
		if (r->bad) return;
		while (*r->p != end)
		{
			if (c == '{')
			{
				r->line2 = r->line;
				if (*r->p != '"') { r->bad = 1; return; }
				string(r);
				if (r->bad) return;
				blanks(r);
				if (r->bad) return;
				if (*r->p != ':') { r->bad = 1; return; }
				r->p++;
				puts_(r->o, ":");
				blanks(r);
				if (r->bad) return;
			}
			value(r);
			if (r->bad) return;
			puts_(r->o, ",");
			blanks(r);
			if (r->bad) return;
			if (*r->p == end) break;
			if (*r->p != ',') { r->bad = 1; return; }
			r->p++;
			blanks(r);
			if (r->bad) return;
		}
		put(r->o, &end, 1);
		r->p++;
		r->depth--;
		return;
	}
	static const char *words[] = { "true", "false", "null" };
	for (int i = 0; i < 3; i++) if (!strncmp(r->p, words[i], strlen(words[i]))) { puts_(r->o, words[i]); r->p += strlen(words[i]); return; }
	r->bad = 1;
}

// lines of the tokens of the rest: a token that is well formed but misplaced may span lines
static int token_end_line(const char *p, int line)
{
	if (*p != '"') return line;
	for (p++; *p && *p != '"'; p++) { if (*p == '\n') line++; if (*p == '\\' && p[1]) p++; }
	return line;
}

// 0: rejected, 1: a value, 2: nothing but blanks
static int reference(const char *doc, Buf *o, int *line, int *line2)
{
	R r = { .p = doc, .line = 1, .o = o };
	o->n = 0; if (o->s) o->s[0] = 0;
	blanks(&r);
	int empty = 0;
	if (!r.bad && !*r.p) { puts_(o, "null"); return 2; }
	if (!r.bad) value(&r);
	if (!r.bad) { blanks(&r); if (!r.bad && *r.p) r.bad = 1; }
	*line = r.line;
	*line2 = token_end_line(r.p, r.line);
	return !r.bad;
}

// ---------------------------------------------------------------- one document
static char *area; enum { AREA = 1 << 20 };
static Buf got, want, again;
static uint64_t docs, good, bad, reports;
static char seen[64][64]; static int nseen;

static void report(const char *what, const char *doc, size_t len)
{
	reports++;
	int times = 0;
	for (int i = 0; i < nseen; i++) if (!strcmp(seen[i], what)) times++;
	if (times >= 3 || nseen >= 64) return;
	snprintf(seen[nseen++], 64, "%s", what);
	printf("V\t%s\t", what);
	for (size_t i = 0; i < len && i < 400; i++) printf(doc[i] >= ' ' && doc[i] < 127 && doc[i] != '\\' ? "%c" : "\\x%02x", (unsigned char)doc[i]);
	printf("\twant %.200s got %.200s\n", want.s ? want.s : "", got.s ? got.s : "");
	fflush(stdout);
}

static void check(const char *doc, size_t len)
{
	docs++;
	// the document ends where the memory ends
	char *at = area + AREA - len - 1;
	memcpy(at, doc, len); at[len] = 0;
	int line, line2;
	int ok = reference(at, &want, &line, &line2);
	pool_used = 0;
	got.n = 0; if (got.s) got.s[0] = 0;
	int sig = sigsetjmp(jump, 1);
	if (sig) { report(sig == SIGSEGV || sig == SIGBUS ? "reads outside or overflows the stack" : "crash", doc, len); return; }
	armed = 1;
	JsonParser ps;
	memset(&ps, 0x5a, sizeof(ps));
	json_init_string(&ps, at);
	JSONObject *o = json_parse(&ps);
	if (ps.error_message)
	{
		armed = 0;
		bad++;
		if (ok) { report("a well-formed document is rejected", doc, len); return; }
		if ((int)ps.line < line || (int)ps.line > line2) { char t[64]; snprintf(t, 64, "%d..%d", line, line2); want.n = 0; puts_(&want, t); got.n = 0; snprintf(t, 64, "%d", ps.line); puts_(&got, t); report("error on the wrong line", doc, len); }
		return;
	}
	dump(&got, o);
	if (!ok) { armed = 0; report("a malformed document is accepted", doc, len); return; }
	good++;
	if (strcmp(got.s, want.s)) { armed = 0; report("wrong content", doc, len); return; }
	if (ok == 2) { armed = 0; return; }
	// what is written back has the same content
	char *text = NULL; size_t n = 0;
	FILE *f = open_memstream(&text, &n);
	print_json_to_file(o, f);
	fclose(f);
	int l;
	int ok2 = reference(text, &again, &l, &l);
	armed = 0;
	if (ok2 != 1 || strcmp(again.s, want.s)) { got.n = 0; puts_(&got, text); report("written back with another content", doc, len); }
	free(text);
}

// all sequences of up to n pieces between two texts
static int shard, shards;
static void sequences(const char **pieces, int np, int n, const char *before, const char *after)
{
	char doc[4096]; int idx[16];
	for (int len = 0; len <= n; len++)
	{
		uint64_t total = 1;
		for (int i = 0; i < len; i++) total *= np;
		for (uint64_t k = shard; k < total; k += shards)
		{
			uint64_t v = k; char *p = stpcpy(doc, before);
			for (int i = 0; i < len; i++, v /= np) p = stpcpy(p, pieces[v % np]);
			p = stpcpy(p, after);
			check(doc, p - doc);
		}
	}
}
#define SEQ(n, before, after, ...) do { const char *ps_[] = { __VA_ARGS__ }; sequences(ps_, sizeof(ps_) / sizeof(*ps_), n, before, after); } while (0)

int main(int argc, char **argv)
{
	int d = atoi(argv[1]); shard = atoi(argv[2]); shards = atoi(argv[3]);
	pool = mmap(NULL, POOL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	char *m = mmap(NULL, AREA + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + AREA, 4096, PROT_NONE);
	area = m + 4096;
	static char alt[65536];
	sigaltstack(&(stack_t) { .ss_sp = alt, .ss_size = sizeof(alt) }, NULL);
	struct sigaction sa = { .sa_handler = on_signal, .sa_flags = SA_ONSTACK | SA_NODEFER };
	int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP };
	for (int i = 0; i < 6; i++) sigaction(sigs[i], &sa, NULL);
	memory_init(0);

	// structure
	SEQ(7 + d, "", "", "{", "}", "[", "]", ",", ":", "\"a\"", "1", "null");
	SEQ(4 + d, "{\"k\":", "}", "{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "-2.5", "null", "true", "false");
	SEQ(4 + d, "[ \n", "]", "{", "}", "\n", "[", "]", ",", ":", "\"a\"", "\"b\n\"", "@", "false");
	SEQ(5 + d, "", "", "tru", "e", "fals", "nul", "l", "[", "]", ",", " ");
	// numbers
	SEQ(6 + d, "", "", "-", "+", ".", "e", "E", "0", "1", "2", "5");
	SEQ(4 + d, "[", ",3]", "-", "+", ".", "e", "E", "0", "1", "25", "308", "1023");
	SEQ(3 + d, "{\"a\":", "}", "-", ".", "e-", "e", "00000", "1", "123456789", "4503599627370497", "9007199254740993", "0.1");
	// strings
	SEQ(6 + d, "\"", "\"", "\\", "\"", "u", "0", "d8", "dc00", "n", "\n", "\xc3\xa9", "00e9");
	SEQ(4 + d, "[\"", "\"]", "\\u", "\\", "d83d", "de00", "D", "g", "0041", "x", "\"", ",");
	SEQ(4 + d, "{\"", "\":1}", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0001", "/", "\x01", "\t", "\x7f", "a");
	SEQ(4 + d, "\"", "", "\\", "u", "1", "12", "\"", "\\\\");
	// comments, blanks, lines
	SEQ(7 + d, "", "", "/", "*", "\n", " ", "1", "[", "]", ",");
	SEQ(5 + d, "{", "}", "//", "/*", "*/", "\n", "\"a\"", ":", "1", ",", "\r", "\v", "\t");
	char doc[8192];
	for (int a = 1; a < 256; a++)
		for (int b = 1; b < 256; b++)
		{
			if ((a * 256 + b) % shards != shard) continue;
			check(doc, sprintf(doc, "%c", a)); check(doc, sprintf(doc, "%c%c", a, b)); check(doc, sprintf(doc, "[%c%c]", a, b)); check(doc, sprintf(doc, "1%c%c", a, b));
			check(doc, sprintf(doc, "\"%c%c\"", a, b)); check(doc, sprintf(doc, "{\"%c\":\"%c\"}", a, b)); check(doc, sprintf(doc, "\"\\%c%c\"", a, b)); check(doc, sprintf(doc, "1/%c%c", a, b));
			check(doc, sprintf(doc, "[\"\\u%c%c", a, b)); check(doc, sprintf(doc, "[\"\\u00%c%c\"]", a, b));  check(doc, sprintf(doc, "0%c%c", a, b)); check(doc, sprintf(doc, "t%crue%c", a, b));
		}
	for (int u = shard; u < 65536; u += shards)
	{
		check(doc, sprintf(doc, "\"\\u%04x\"", u)); check(doc, sprintf(doc, "[\"a\\u%04Xb\"]", u));
		check(doc, sprintf(doc, "\"\\ud83d\\u%04x\"", u)); check(doc, sprintf(doc, "\"\\u%04x\\udc00\"", u));
		if (u % 7 == 0) check(doc, sprintf(doc, "\"\\u%04x\\u%04x\"", 0xd800 + u % 1024, 0xdc00 + u / 64));
	}
	// long arrays, long strings, deep nesting
	for (int n = shard; n < 1100; n += shards)
	{
		char *big = malloc(1 << 19), *p = big;
		*p++ = '[';
		for (int i = 0; i < n; i++) p += sprintf(p, "%d,\"s%d\",{\"k%d\":%d},", i, i, i, -i);
		*p++ = ']';
		check(big, p - big);
		memset(big, '[', n); check(big, n); memset(big + n, ']', n); check(big, 2 * n);
		p = big;
		for (int i = 0; i < n; i++) p = stpcpy(p, "{\"a\":");
		check(big, p - big); *p++ = '1'; memset(p, '}', n); p += n; check(big, p - big);
		big[0] = '"'; memset(big + 1, 'x', n); big[n + 1] = '"'; check(big, n + 2); check(big, n + 1);
		if (n == 1) { memset(big, '[', 500000); check(big, 500000); }
		free(big);
	}
	// a real document: every prefix, every one-character change
	const char *real = "{\n  // comment\n  \"langrev\": \"1\",\n  \"warnings\": [ \"no-unused\" ],\n  \"n\": [1, -2.5e3, null, true, {\"x\": []}],\n  /* more\n */ \"targets\": { \"a\\tb\": { \"type\": \"executable\", }, },\n}\n";
	size_t rl = strlen(real);
	for (size_t i = 0; i <= rl; i++)
	{
		if (i % shards != (size_t)shard) continue;
		check(real, i);
		for (const char *c = "{}[],:\"\\/*\n 1-.eutn@a"; *c; c++)
		{
			memcpy(doc, real, rl); doc[i] = *c; check(doc, rl);
			memcpy(doc, real, i); doc[i] = *c; memcpy(doc + i + 1, real + i, rl - i); check(doc, rl + 1);
		}
		if (i < rl) { memcpy(doc, real, i); memcpy(doc + i, real + i + 1, rl - i - 1); check(doc, rl - 1); }
	}
	printf("N\t%lu\t%lu\t%lu\t%lu\n", docs, good, bad, reports);
	return 0;
}
