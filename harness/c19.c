/* C19: UTF-8 text: check and sanitize, over enumerated texts and sizes */
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <wchar.h>
#include <futils/string.h>

/* ---- the reference ---- */
/* RFC 3629; returns the number of bytes of the first character, 0: invalid */
static int ref_dec(const unsigned char *s, size_t n, uint32_t *c)
{
	static const struct { uint32_t lo, hi; } len[5] = { { 0, 0 },
		{ 1, 0x7f }, { 0x80, 0x7ff }, { 0x800, 0xffff },
		{ 0x10000, 0x10ffff } };
	int l = s[0] < 0x80 ? 1 : s[0] < 0xc0 ? 0 : s[0] < 0xe0 ? 2 :
		s[0] < 0xf0 ? 3 : s[0] < 0xf8 ? 4 : 0, i;
	if (!l || (size_t)l > n)
		return 0;
	*c = l == 1 ? s[0] : s[0] & (0xff >> (l + 1));
	for (i = 1; i < l; i++) {
		if ((s[i] & 0xc0) != 0x80)
			return 0;
		*c = *c << 6 | (s[i] & 0x3f);
	}
	if (*c < len[l].lo || *c > len[l].hi)
		return 0;
	if (*c >= 0xd800 && *c <= 0xdfff)
		return 0;
	return l;
}

static int ref_enc(uint32_t c, char *o)
{
	if (c < 0x80) {
		o[0] = c;
		return 1;
	}
	if (c < 0x800) {
		o[0] = 0xc0 | c >> 6;
		o[1] = 0x80 | (c & 63);
		return 2;
	}
	if (c < 0x10000) {
		o[0] = 0xe0 | c >> 12;
		o[1] = 0x80 | (c >> 6 & 63);
		o[2] = 0x80 | (c & 63);
		return 3;
	}
	o[0] = 0xf0 | c >> 18;
	o[1] = 0x80 | (c >> 12 & 63);
	o[2] = 0x80 | (c >> 6 & 63);
	o[3] = 0x80 | (c & 63);
	return 4;
}

#define MAXC 17000000
static uint32_t chars[MAXC];
static long nchars;			/* -1: invalid */

static void ref_parse(const char *s, size_t n)
{
	size_t i = 0;
	nchars = 0;
	while (i < n) {
		int l = ref_dec((const unsigned char *)s + i, n - i,
				&chars[nchars]);
		if (!l) {
			nchars = -1;
			return;
		}
		i += l;
		nchars++;
	}
}

static int in(const wchar_t *f, uint32_t c)
{
	for (; f && *f; f++)
		if ((uint32_t)*f == c)
			return 1;
	return 0;
}

/* ---- exactly sized buffers ---- */
static char *outs[64];
static char *out_of(size_t n)
{
	if (n >= 64)
		return malloc(n);
	if (!outs[n])
		outs[n] = malloc(n ? n : 1);
	return outs[n];
}
/* an output which really is that large */
#define HUGE_OUT 0x7ff00000ul
static char *huge_out(void)
{
	static char *p;
	if (!p) {
		p = mmap(NULL, 0x100002000, PROT_READ | PROT_WRITE, MAP_PRIVATE |
			 MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			mc_broken("no address space");
	}
	return p;
}
static char *ins[64];
static char *in_of(const char *s, size_t n)
{
	char *p;
	if (n >= 64)
		p = malloc(n + 1);
	else if (!ins[n])
		p = ins[n] = malloc(n + 1);
	else
		p = ins[n];
	memcpy(p, s, n);
	p[n] = 0;
	return p;
}
static wchar_t *wide(const uint32_t *c, int n)
{
	wchar_t *w = malloc((n + 1) * sizeof(*w));
	int i;
	for (i = 0; i < n; i++)
		w[i] = c[i];
	w[n] = 0;
	return w;
}

static const char *show(const char *s, size_t n)
{
	static char b[8][80];
	static int k;
	char *p = b[k++ & 7];
	size_t i, o = 0;
	for (i = 0; i < n && o < 60; i++)
		o += sprintf(p + o, "%02x", s[i] & 255);
	p[o] = 0;
	return p;
}

static int faults;	/* failures are injected: errors are acceptable */

/* one check; the text is parsed in chars/nchars already */
static void t_check(const char *s, size_t n, size_t maxb, size_t maxw,
		    const wchar_t *forb, const char *fname)
{
	int r, big = 0, bad = 0, done = vk_faults_done;
	long i;
	mc_count_transitions(1);
	r = futils_string_check_utf8(s, maxb, maxw, forb);
	CHECK(!vk_mem_live && !vk_iconv_live, "check of %s leaks", show(s, n));
	if (maxb && n + 1 > maxb)
		big = 1;
	if (nchars >= 0) {
		if (maxw && (size_t)nchars > maxw)
			big = 1;
		for (i = 0; i < nchars; i++)
			bad |= in(forb, chars[i]);
	}
	if (r < 0 && vk_faults_done > done)
		return;
	mc_n_nontrivial++;
	if (nchars < 0) {
		CHECK(r < 0, "check accepts %s, which is not UTF-8 (bytes %zu, "
		      "characters %zu)", show(s, n), maxb, maxw);
		return;
	}
	if (!big && !bad)
		CHECK(r == 0, "check of the valid %s (bytes %zu, characters %zu,"
		      " forbidden %s) returns %d", show(s, n), maxb, maxw,
		      fname, r);
	else
		CHECK((big && r == -E2BIG) || (bad && r == -EPROTO),
		      "check of %s (bytes %zu, characters %zu, forbidden %s) "
		      "returns %d", show(s, n), maxb, maxw, fname, r);
}

static void t_sanitize(const char *s, size_t n, size_t size,
		       const wchar_t *forb, uint32_t repl, const char *fname)
{
	char *o = size > HUGE_OUT ? huge_out() : out_of(size), *copy = NULL;
	static char ref[4 * MAXC];
	size_t k = 0;
	long i;
	int r, done = vk_faults_done;
	mc_count_transitions(1);
	memset(o, '~', size > HUGE_OUT ? 4096 : size);
	if (faults)
		copy = strdup(s);
	r = futils_string_sanitize_utf8(s, o, size, forb, (wchar_t)repl);
	CHECK(!vk_mem_live && !vk_iconv_live, "sanitizing %s leaks",
	      show(s, n));
	if (copy) {
		CHECK(!strcmp(s, copy), "the text %s was changed", show(copy, n));
		free(copy);
	}
	if (r < 0 && vk_faults_done > done)
		goto out;
	mc_n_nontrivial++;
	if (nchars < 0) {
		CHECK(r < 0, "sanitizing %s, which is not UTF-8, in %zu bytes "
		      "returns %d", show(s, n), size, r);
		goto out;
	}
	if (size < 2) {
		CHECK(r < 0, "sanitizing in %zu bytes returns %d", size, r);
		goto out;
	}
	for (i = 0; i < nchars; i++) {
		char e[4];
		int l = ref_enc(in(forb, chars[i]) ? repl : chars[i], e);
		if (k + l + 1 > size)
			break;
		memcpy(ref + k, e, l);
		k += l;
	}
	CHECK(r == (int)k, "sanitizing %s in %zu bytes (forbidden %s, "
	      "replacement %#x) returns %d and not %zu", show(s, n), size,
	      fname, repl, r, k);
	CHECK(o[k] == 0, "the sanitized %s in %zu bytes is not terminated",
	      show(s, n), size);
	CHECK(!memcmp(o, ref, k), "sanitizing %s in %zu bytes (forbidden %s, "
	      "replacement %#x) gives %s and not %s", show(s, n), size, fname,
	      repl, show(o, k), show(ref, k));
	if (!in(forb, repl) && vk_faults_done == done) {
		uint64_t m = vk_fault_mask;
		vk_fault_mask = 0;
		r = futils_string_check_utf8(o, size, 0, forb);
		CHECK(r == 0, "the sanitized text %s (from %s in %zu) does not "
		      "pass the check: %d", show(o, k), show(s, n), size, r);
		vk_fault_mask = m;
	}
out:
	if (size >= 64 && size <= HUGE_OUT)
		free(o);
}

/* ---- scenarios ---- */
static const uint32_t ABC[] = { 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000,
	0xfeff, 0xffff, 0x10000, 0x10ffff, 1 };
#define NABC 12
static const uint32_t REPL[] = { '_', 0xe9, 0x20ac, 0x1f600, 0x10ffff };
#define NREPL 5
struct fset { const wchar_t *w; char name[40]; };
static struct fset fsets[40];
static int nfsets;

static void mk_fsets(void)
{
	static const uint32_t two[][3] = { { 'a', 0x800 }, { 0x10ffff, 0x80 },
		{ 0x7ff, 0xffff }, { 'b', 'c' }, { 'b', 'a' }, { 0x20ac, 0x10000 } };
	uint32_t all[NABC];
	int i;
	fsets[nfsets].w = NULL;
	strcpy(fsets[nfsets++].name, "null");
	fsets[nfsets].w = wide(NULL, 0);
	strcpy(fsets[nfsets++].name, "none");
	for (i = 0; i < NABC; i++) {
		fsets[nfsets].w = wide(&ABC[i], 1);
		sprintf(fsets[nfsets++].name, "%#x", ABC[i]);
		all[i] = ABC[NABC - 1 - i];
	}
	for (i = 0; i < 6; i++) {
		fsets[nfsets].w = wide(two[i], 2);
		sprintf(fsets[nfsets++].name, "%#x,%#x", two[i][0], two[i][1]);
	}
	fsets[nfsets].w = wide(all, NABC);
	strcpy(fsets[nfsets++].name, "all");
	fsets[nfsets].w = wide((const uint32_t *)FUTILS_STRING_EXFAT_FORBIDDEN,
			       wcslen(FUTILS_STRING_EXFAT_FORBIDDEN));
	strcpy(fsets[nfsets++].name, "exfat");
}

struct job { int len, first; };

/* all texts of some characters */
static void s_texts(void *arg)
{
	struct job *j = arg;
	int ix[5], i, f, r;
	char b[32];
	memset(ix, 0, sizeof(ix));
	if (j->len)
		ix[0] = j->first;
	for (;;) {
		size_t n = 0, size;
		char *s;
		uint64_t id = 0;
		for (i = 0; i < j->len; i++) {
			n += ref_enc(ABC[ix[i]], b + n);
			id = id * 16 + ix[i];
		}
		s = in_of(b, n);
		ref_parse(s, n);
		if (nchars != j->len)
			mc_broken("reference");
		mc_case(j->len, id, 0, 0);
		for (f = 0; f < nfsets; f++) {
			size_t mb, mw;
			/* 4 characters: fewer sets */
			if (j->len > 3 && f % (mc_thorough ? 1 : 4) != 0 &&
			    f < nfsets - 1)
				continue;
			for (mb = 0; mb <= n + 2; mb++) {
				if (j->len > 2 && mb > 1 && mb + 1 < n)
					continue;
				for (mw = 0; mw <= (size_t)j->len + 1; mw++)
					t_check(s, n, mb, mw, fsets[f].w,
						fsets[f].name);
			}
			t_check(s, n, SIZE_MAX, SIZE_MAX, fsets[f].w,
				fsets[f].name);
			for (r = 0; r < NREPL; r++) {
				if ((j->len > 3 || !f) && r != f % NREPL)
					continue;
				if (j->len == 3 && r && r != f % NREPL &&
				    !mc_thorough)
					continue;
				for (size = 2; size <= (size_t)4 * j->len + 3;
				     size++)
					t_sanitize(s, n, size, fsets[f].w,
						   REPL[r], fsets[f].name);
			}
		}
		t_sanitize(s, n, 0, NULL, '_', "null");
		t_sanitize(s, n, 1, NULL, '_', "null");
		for (i = j->len - 1; i > 0 && ++ix[i] == NABC; i--)
			ix[i] = 0;
		if (i <= 0)
			break;
	}
	mc_sample("texts of %d characters starting with U+%04X: every output "
		  "size, limit, %d forbidden sets, %d replacements", j->len,
		  ABC[j->first], nfsets, NREPL);
}

/* all byte strings over boundary bytes */
static const unsigned char BY[] = { 'a', 0x80, 0xe2, 0xf0, 0xed, 0xf4, 0xc3,
	0x01, 0x7f, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0,
	0xe1, 0xec, 0xee, 0xef, 0xf1, 0xf3, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd,
	0xfe, 0xff };
#define NBY 33

static void bytes_one(const char *b, int n, uint64_t id)
{
	char *s = in_of(b, n);
	ref_parse(s, n);
	mc_case(n, id, 1, 0);
	t_check(s, n, 0, 0, NULL, "null");
	if (n <= 3 || nchars >= 0) {
		size_t size;
		t_check(s, n, n + 1, 0, fsets[2].w, fsets[2].name);
		t_check(s, n, 0, 2, fsets[2].w, fsets[2].name);
		for (size = 2; size <= (size_t)n + 2; size++)
			t_sanitize(s, n, size, fsets[2].w, 0x20ac,
				   fsets[2].name);
	} else {
		t_sanitize(s, n, 2 + id % 5, NULL, '_', "null");
	}
}

static void s_bytes(void *arg)
{
	struct job *j = arg;
	int ix[8], i, lim = j->len > 4 ? (mc_thorough ? 24 : 7) : NBY;
	char b[8];
	memset(ix, 0, sizeof(ix));
	ix[0] = j->first;
	if (j->first >= lim)
		return;
	for (;;) {
		uint64_t id = 0;
		for (i = 0; i < j->len; i++) {
			b[i] = BY[ix[i]];
			id = id << 8 | BY[ix[i]];
		}
		bytes_one(b, j->len, id);
		for (i = j->len - 1; i > 0 && ++ix[i] == lim; i--)
			ix[i] = 0;
		if (i <= 0)
			break;
	}
	mc_sample("byte strings of %d starting with %02x over %d bytes", j->len,
		  BY[j->first], lim);
}

/* all strings of 1, 2 and (thorough) 3 bytes starting with some byte */
static void s_allbytes(void *arg)
{
	int first = *(int *)arg, x, y;
	char b[3];
	b[0] = first;
	bytes_one(b, 1, first);
	for (x = 1; x < 256; x++) {
		b[1] = x;
		bytes_one(b, 2, first << 8 | x);
		if (!mc_thorough && first < 0xc0)
			continue;
		for (y = 1; y < 256; y++) {
			char *s;
			b[2] = y;
			if (mc_thorough) {
				bytes_one(b, 3, first << 16 | x << 8 | y);
				continue;
			}
			s = in_of(b, 3);
			ref_parse(s, 3);
			mc_case(3, first << 16 | x << 8 | y, 2, 0);
			t_check(s, 3, 0, 0, NULL, "null");
		}
	}
}

/* each character of Unicode, alone and between two others */
static void s_unicode(void *arg)
{
	int plane = *(int *)arg;
	uint32_t c;
	for (c = plane << 16; c < (plane + 1u) << 16; c++) {
		char b[16];
		size_t n = 0;
		char *s;
		wchar_t w[2] = { c, 0 };
		uint32_t around[2] = { c ^ 1, c ^ 0x100 };
		static wchar_t *near;
		if (!c)
			continue;
		mc_case(c, 0, 3, 0);
		b[n++] = 'x';
		n += ref_enc(c, b + n);
		b[n++] = 'y';
		s = in_of(b, n);
		ref_parse(s, n);
		t_check(s, n, 0, 0, NULL, "null");
		t_check(s, n, n + 1, 3, w, "itself");
		if (!near)
			near = wide(around, 2);
		near[0] = around[0] ? around[0] : around[1];
		near[1] = around[1];
		if (!near[1])
			near[1] = 'z';
		if (c != 'x' && c != 'y')
			t_check(s, n, n + 1, 3, near, "its neighbours");
		t_sanitize(s, n, n, w, 0x10ffff, "itself");
		t_sanitize(s, n, n + 1, w, '_', "itself");
		t_sanitize(s, n, n - 1, NULL, '_', "null");
		t_sanitize(s, n, 2, NULL, '_', "null");
	}
}

/* long texts of one or two kinds of characters */
static void s_long(void *arg)
{
	static const int around[] = { 30, 63, 64, 127, 128, 255, 256, 511, 512,
		1023, 1024, 2047, 2048, 4095, 4096 };
	int kind = *(int *)arg, a, d, q;
	static char b[4 * MAXC];
	static const uint32_t K[] = { 'a', 0xe9, 0x20ac, 0x1f600 };
	for (a = 0; a < 15; a++) {
		/* the kind characters, one other among them */
		for (d = -2; d <= 2; d++) {
			/* so many characters, or so many bytes */
			for (q = 0; q < 2; q++) {
				int cnt = around[a] + d, i, one = ref_enc(
					K[kind], b);
				size_t n = 0;
				char *s;
				wchar_t f[3] = { 'z', K[kind], 0 };
				int at, p;
				long size;
				if (q)
					cnt = (around[a] + d) / one;
				for (p = 0; p < 4; p++) {
					at = p == 0 ? 0 : p == 1 ? cnt / 2 :
						p == 2 ? cnt - 1 : -1;
					for (n = i = 0; i < cnt; i++)
						n += ref_enc(i == at ? 'Z' :
							K[kind], b + n);
					s = in_of(b, n);
					ref_parse(s, n);
					mc_case(kind, cnt, p, 4);
					t_check(s, n, n + 1, cnt, L"y", "y");
					t_check(s, n, n, cnt, L"y", "y");
					t_check(s, n, n + 1, cnt - 1, L"y", "y");
					t_check(s, n, 0, 0, L"Z", "Z");
					for (size = n - 5; size <= (long)n + 2;
					     size++) {
						if (size < 2)
							continue;
						t_sanitize(s, n, size, f + 2, '_', "none");
						t_sanitize(s, n, size, L"Z", 0x20ac, "Z");
					}
					t_sanitize(s, n, cnt + 1, f, '_', "all");
					t_sanitize(s, n, cnt, f, '_', "all");
					t_sanitize(s, n, 4 * cnt + 1, f, 0x1f600, "all");
					t_sanitize(s, n, around[a] + 2 + d, f, 0x20ac, "all");
					if (n >= 64)
						free(s);
					else	/* invalid at the end */
						continue;
					if (p == 3) {
						char *t = in_of(b, n - (one > 1));
						size_t m = n - (one > 1);
						if (one == 1)
							t[m - 1] = 0x80;
						ref_parse(t, m);
						if (nchars != -1)
							mc_broken("reference");
						t_check(t, m, 0, 0, NULL, "null");
						t_sanitize(t, m, m / 2 + 2, NULL, '_', "null");
						t_sanitize(t, m, m + 2, L"Z", '_', "Z");
						if (m >= 64)
							free(t);
					}
				}
			}
		}
	}
	/* forbidden sets of all lengths: the forbidden one at each place */
	for (a = 1; a < 304; a++) {
		static const int more[] = { 65535, 65536, 65537, 140000 };
		int b = a;
		if (a >= 300)
			a = more[b - 300];
		wchar_t *w = malloc((a + 1) * sizeof(*w));
		char t[16];
		size_t n = 0;
		int p, i;
		n += ref_enc('q', t);
		n += ref_enc(K[kind], t + n);
		t[n++] = 'q';
		t[n] = 0;
		for (p = 0; p <= a; p += p < 8 || p > a - 9 ? 1 : a / 5 + 1) {
			char *s;
			for (i = 0; i < a; i++)
				w[i] = i == p ? (wchar_t)K[kind] :
					(a < 300 ? 0x3000 : 0x20000) + i;
			w[a] = 0;
			s = in_of(t, n);
			ref_parse(s, n);
			mc_case(kind, a, p, 5);
			t_check(s, n, 0, 0, w, "a long set");
			t_sanitize(s, n, 12, w, '_', "a long set");
		}
		free(w);
		a = b;
	}
}

/* sizes beyond 16 bits */
static void s_huge(void *arg)
{
	static const int cnts[] = { 8191, 8192, 16383, 16384, 32767, 32768,
		65535, 65536, 131072, 1048576, 16777216 };
	static const uint32_t K[] = { 'a', 0xe9, 0x20ac, 0x1f600 };
	static char b[4 * MAXC];
	int kind = *(int *)arg, k, d, i;
	for (k = 0; k < (mc_thorough ? 11 : 10); k++)
		for (d = -1; d <= 1; d++) {
			int cnt = cnts[k] + d;
			size_t n = 0;
			char *s;
			for (i = 0; i < cnt; i++)
				n += ref_enc(i == cnt - 1 ? 'Z' : K[kind],
					     b + n);
			s = in_of(b, n);
			ref_parse(s, n);
			mc_case(kind, cnt, 0, 8);
			t_check(s, n, n + 1, cnt, L"y", "y");
			t_check(s, n, n, 0, NULL, "null");
			t_check(s, n, 0, cnt - 1, NULL, "null");
			t_check(s, n, 0, 0, L"Z", "Z");
			t_sanitize(s, n, n + 1, L"Z", '_', "Z");
			t_sanitize(s, n, n, L"Z", '_', "Z");
			t_sanitize(s, n, cnt + 1, NULL, '_', "null");
			t_sanitize(s, n, 3 * cnt + 1, (wchar_t[]){ K[kind], 0 },
				   0x20ac, "all");
			free(s);
		}
}

/* limits and output sizes beyond 31 and 32 bits */
static void s_limits(void *arg)
{
	static const size_t L[] = { 65535, 65536, 65537, 0x7fffffff, 0x80000000,
		0x80000001, 0x80000002, 0xffffffff, 0x100000000, 0x100000001,
		0x100000002, 0x100000003, 0x100000004, 0x100001000,
		0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000002,
		SIZE_MAX - 1, SIZE_MAX };
	static const char *texts[] = { "", "a", "ab", "a\xc3\xa9z", "\xff",
		"\xf0\x9f\x98\x80" "abc" };
	size_t i, j, f;
	for (i = 0; i < 6; i++) {
		size_t n = strlen(texts[i]);
		char *c = in_of(texts[i], n);
		ref_parse(c, n);
		for (j = 0; j < sizeof(L) / sizeof(L[0]); j++)
			for (f = 0; f < (size_t)nfsets; f++) {
				mc_case(i, L[j], f, 9);
				t_check(c, n, L[j], 0, fsets[f].w,
					fsets[f].name);
				t_check(c, n, 0, L[j], fsets[f].w,
					fsets[f].name);
				t_check(c, n, L[j], L[j], fsets[f].w,
					fsets[f].name);
				t_check(c, n, n, L[j], fsets[f].w,
					fsets[f].name);
				if (L[j] <= 0x100002000)
					t_sanitize(c, n, L[j], fsets[f].w, '_',
						   fsets[f].name);
			}
	}
}

/* the characters refused by exFAT: control codes, and nine others */
static void s_exfat(void *arg)
{
	const wchar_t *w = FUTILS_STRING_EXFAT_FORBIDDEN, *p;
	uint32_t c;
	for (c = 1; c < 0x110000; c++) {
		int want = c < 0x20 || (c < 0x80 && strchr("\"*/:<>?\\|", c));
		CHECK(!!wcschr(w, c) == want, "the character %#x is %sforbidden "
		      "by the set of exFAT", c, want ? "not " : "");
	}
	for (p = w; *p; p++)
		CHECK((uint32_t)*p < 0x80, "%#x is in the set of exFAT", *p);
	mc_case(0, 0, 0, 10);
	mc_n_nontrivial++;
}

/* pairs of calls: the first, the second, the first again */
static const struct { const char *s; int bytes, chars, size, f, repl; } pc[] = {
	{ "", 0, 0, 0, 0, 0 }, { "", 1, 0, 0, 1, 0 }, { "", 0, 0, 2, 1, '_' },
	{ "abc", 0, 0, 0, 0, 0 }, { "abc", 3, 0, 0, 0, 0 },
	{ "abc", 4, 3, 0, 2, 0 }, { "abc", 0, 2, 0, 2, 0 },
	{ "abc", 0, 0, 4, 2, 0x20ac }, { "abc", 0, 0, 20, 2, '_' },
	{ "abd", 0, 0, 4, 0, 0x20ac }, { "abd", 0, 0, 2, 2, 0x1f600 },
	{ "\xff", 0, 0, 0, 0, 0 }, { "\xff", 0, 0, 9, 2, '_' },
	{ "a\xc3", 0, 0, 0, 2, 0 }, { "a\xc3", 0, 0, 9, 1, 0 },
	{ "a\xe2\x82", 0, 0, 9, 1, 0 }, { "a\xe2\x82", 0, 0, 0, 0, 0 },
	{ "\xa9z", 0, 0, 0, 0, 0 }, { "\xac", 0, 0, 9, 0, 0 },
	{ "\xf5\x80\x80\x80", 0, 0, 9, 0, 0 },
	{ "\xed\xa0\x80", 0, 0, 0, 0, 0 }, { "\xc0\x80", 0, 0, 9, 2, '_' },
	{ "\xc3\xa9\xe2\x82\xac", 0, 0, 0, 0, 0 },
	{ "\xc3\xa9\xe2\x82\xac", 0, 1, 0, 2, 0 },
	{ "\xc3\xa9\xe2\x82\xac", 0, 0, 3, 0, '_' },
	{ "\xc3\xa9\xe2\x82\xac", 0, 0, 5, 0, '_' },
	{ "\xc3\xa9\xe2\x82\xac", 0, 0, 6, 0, '_' },
	{ "\xf0\x9f\x98\x80" "a", 0, 0, 6, 2, '_' },
	{ "\xf0\x9f\x98\x80" "a", 0, 0, 5, 21, 0x20ac },
	{ "\xef\xbb\xbf" "a", 0, 0, 9, 0, '_' },
	{ "\xef\xbb\xbf" "a", 5, 2, 0, 21, 0 },
	{ "a?b:c", 0, 0, 9, 21, '_' }, { "a?b:c", 0, 0, 0, 21, 0 },
	{ "a\x1f", 0, 0, 3, 21, '_' }, { "a\x1f", 0, 0, 3, 21, 0xe9 },
};
#define NPC (sizeof(pc) / sizeof(pc[0]))
static void s_pairs(void *arg)
{
	size_t i, j, k, x, n;
	char *c;
	for (i = 0; i < NPC; i++)
		for (j = 0; j < NPC; j++)
			for (k = 0; k < 3; k++) {
				x = k == 1 ? j : i;
				n = strlen(pc[x].s);
				c = in_of(pc[x].s, n);
				ref_parse(c, n);
				mc_case(i, j, k, 11);
				if (pc[x].size)
					t_sanitize(c, n, pc[x].size,
						   fsets[pc[x].f].w,
						   pc[x].repl,
						   fsets[pc[x].f].name);
				else
					t_check(c, n, pc[x].bytes, pc[x].chars,
						fsets[pc[x].f].w,
						fsets[pc[x].f].name);
			}
	mc_sample("all pairs of %zu calls", NPC);
}

/* failures at each call, and refused arguments */
static const int nomem[] = { ENOMEM, 0 };
static void s_faults(void *arg)
{
	static const char *texts[] = { "", "a", "a\xc3\xa9z", "\xf0\x9f\x98\x80"
		"abc", "\xff", "ab\xc3", "\xe2\x82\xac\xe2\x82\xac" };
	const char *s = texts[mc_choose(7, "text")];
	size_t n = strlen(s), size;
	int k = mc_choose(6, "call"), f = mc_choose(nfsets, "forbidden");
	char *c = in_of(s, n);
	faults = 1;
	ref_parse(c, n);
	size = k == 3 ? 3 : k == 4 ? n + 1 < 2 ? 2 : n + 1 : 20;
	vk_errs[VKF_MALLOC] = vk_errs[VKF_ICONV] = nomem;
	vk_fault_mask = VKM(VKF_MALLOC) | VKM(VKF_ICONV);
	vk_fault_budget = 3;
	mc_case(n, k, f, 6);
	if (k < 3)
		t_check(c, n, k ? n + k - 1 : 0, k ? 2 : 0, fsets[f].w,
			fsets[f].name);
	else
		t_sanitize(c, n, size, fsets[f].w, 0x20ac, fsets[f].name);
	vk_fault_mask = 0;
	faults = 0;
	/* a failure leaves nothing: the same call works */
	t_check(c, n, 0, 0, fsets[f].w, fsets[f].name);
	t_sanitize(c, n, 20, fsets[f].w, '_', fsets[f].name);
	mc_outcome(vk_faults_done * 100 + k);
}

static void s_args(void *arg)
{
	char b[8] = "~~~~~~~";
	int r;
	r = futils_string_sanitize_utf8(NULL, b, 8, NULL, '_');
	CHECK(r < 0, "a null text is accepted: %d", r);
	r = futils_string_sanitize_utf8("a", NULL, 8, NULL, '_');
	CHECK(r < 0, "a null output is accepted: %d", r);
	r = futils_string_check_utf8(NULL, 0, 0, NULL);
	CHECK(r < 0, "a null text is accepted: %d", r);
	CHECK(!vk_mem_live && !vk_iconv_live, "refused calls leak");
	mc_case(0, 0, 0, 7);
	mc_n_nontrivial++;
}

int main(int argc, char **argv)
{
	static struct job jb[200];
	static int ids[300];
	int n = 0, i, l;
	char name[60];
	mc_init(argc, argv);
	mc_set_reset(vk_reset);
	mk_fsets();
	for (i = 0; i < 300; i++)
		ids[i] = i;
	for (l = 0; l <= 4; l++)
		for (i = 0; i < (l ? NABC : 1); i++) {
			jb[n] = (struct job){ l, i };
			snprintf(name, sizeof(name), "texts %d %d", l, i);
			mc_explore(name, s_texts, &jb[n++]);
		}
	for (l = 4; l <= 5; l++)
		for (i = 0; i < NBY; i++) {
			jb[n] = (struct job){ l, i };
			snprintf(name, sizeof(name), "bytes %d %d", l, i);
			mc_explore(name, s_bytes, &jb[n++]);
		}
	for (i = 1; i < 256; i++) {
		snprintf(name, sizeof(name), "all bytes %d", i);
		mc_explore(name, s_allbytes, &ids[i]);
	}
	for (i = 0; i <= 17; i++) {
		snprintf(name, sizeof(name), "unicode %d", i);
		mc_explore(name, s_unicode, &ids[i]);
	}
	for (i = 0; i < 4; i++) {
		snprintf(name, sizeof(name), "long %d", i);
		mc_explore(name, s_long, &ids[i]);
	}
	for (i = 0; i < 4; i++) {
		snprintf(name, sizeof(name), "huge %d", i);
		mc_explore(name, s_huge, &ids[i]);
	}
	mc_explore("limits", s_limits, NULL);
	mc_explore("exfat", s_exfat, NULL);
	mc_explore("pairs", s_pairs, NULL);
	mc_explore("failures", s_faults, NULL);
	mc_explore("arguments", s_args, NULL);
	return mc_end();
}
