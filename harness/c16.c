/* C16: random texts and shuffles, over the enumerated words of the stream */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include "rnd.h"
#include <errno.h>
#include <limits.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

/* ---- the texts ---- */
static const char A16[] = "0123456789abcdef";
static const char A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
	"0123456789+/";
struct enc { int base; const char *abc; int bits, in, out; };
static const struct enc encs[] = { { 16, A16, 4, 1, 2 }, { 32, A32, 5, 5, 8 },
	{ 64, A64, 6, 3, 4 } };

static int gen(const struct enc *e, char *buf, size_t len, size_t count)
{
	switch (e->base) {
	case 16: return futils_random_base16(buf, len, count);
	case 32: return futils_random_base32(buf, len, count);
	}
	return futils_random_base64(buf, len, count);
}

static size_t total(const struct enc *e, size_t count)
{
	return (count + e->in - 1) / e->in * e->out;
}

/* number of random bits of the character at a position: -1 for padding */
static int bits_at(const struct enc *e, size_t count, size_t pos)
{
	size_t first = pos * e->bits;
	if (first >= count * 8)
		return -1;
	return first + e->bits <= count * 8 ? e->bits : (int)(count * 8 - first);
}

/* an exactly sized buffer, checks of everything but the values */
static char *text(const struct enc *e, size_t len, size_t count, int seed)
{
	size_t want = total(e, count), n, i;
	char *buf = malloc(len ? len : 1);
	int r;
	memset(buf, '~', len);
	r = gen(e, len ? buf : NULL, len, count);
	CHECK(r >= 0 && (size_t)r == want, "base%d(%zu, %zu) returns %d and not %zu",
	      e->base, len, count, r, want);
	if (!len)
		return buf;
	n = want < len - 1 ? want : len - 1;
	for (i = 0; i < n; i++) {
		int b = bits_at(e, count, i);
		const char *p = buf[i] ? strchr(e->abc, buf[i]) : NULL;
		if (b < 0)
			CHECK(buf[i] == '=', "base%d(%zu, %zu): '%c' at %zu "
			      "instead of padding", e->base, len, count,
			      buf[i], i);
		else
			CHECK(p, "base%d(%zu, %zu): character %#x at %zu",
			      e->base, len, count, buf[i] & 255, i);
		if (b > 0)
			CHECK(((p - e->abc) & ((1 << (e->bits - b)) - 1)) == 0,
			      "base%d(%zu, %zu): '%c' at %zu cannot end %zu "
			      "bytes", e->base, len, count, buf[i], i, count);
	}
	CHECK(buf[n] == 0, "base%d(%zu, %zu) is not terminated", e->base, len,
	      count);
	mc_n_nontrivial++;
	return buf;
}

/* bits of the text */
#define MAXBITS 512
static int bits(const struct enc *e, size_t count, size_t n, const char *t,
		uint8_t *out)
{
	size_t i;
	int k = 0, j;
	for (i = 0; i < n; i++) {
		int b = bits_at(e, count, i), v;
		if (b < 0)
			break;
		v = strchr(e->abc, t[i]) - e->abc;
		v >>= e->bits - b;
		for (j = 0; j < b; j++)
			out[k++] = v >> j & 1;
	}
	return k;
}

/* rank over GF(2) of rows of MAXBITS bits */
static int rank(uint64_t (*rows)[MAXBITS / 64], int n)
{
	static uint64_t piv[MAXBITS][MAXBITS / 64];
	static uint8_t has[MAXBITS];
	int i, b, k, r = 0;
	memset(has, 0, sizeof(has));
	for (i = 0; i < n; i++) {
		uint64_t *v = rows[i];
		for (b = 0; b < MAXBITS; b++) {
			if (!(v[b / 64] >> b % 64 & 1))
				continue;
			if (!has[b]) {
				has[b] = 1;
				memcpy(piv[b], v, sizeof(piv[b]));
				r++;
				break;
			}
			for (k = 0; k < MAXBITS / 64; k++)
				v[k] ^= piv[b][k];
		}
	}
	return r;
}

/* the characters of a text of count bytes in len bytes are independent and
 * uniform: the text is an affine map of full rank of the stream */
static void indep(const struct enc *e, size_t len, size_t count)
{
	static uint64_t rows[RND_LEARN * 8][MAXBITS / 64];
	static uint8_t w[RND_LEARN], f0[MAXBITS], f[MAXBITS], g[MAXBITS];
	size_t n = total(e, count) < len - 1 ? total(e, count) : len - 1;
	int used, nb, i, j, k, rk;
	char *t;
	memset(w, 0, sizeof(w));
	rnd_stream(w, 0);
	t = text(e, len, count, 0);
	free(t);
	used = rnd_used();
	CHECK(used >= 0, "base%d(%zu, %zu) uses more than %d bytes of the "
	      "stream", e->base, len, count, RND_LEARN);
#define TEXT(out) do { rnd_stream(w, used); t = text(e, len, count, 0); \
	nb = bits(e, count, n, t, out); free(t); } while (0)
	TEXT(f0);
	memset(rows, 0, sizeof(rows[0]) * used * 8);
	for (i = 0; i < used * 8; i++) {
		mc_case(e->base, len, count, i);
		w[i / 8] ^= 1 << i % 8;
		TEXT(f);
		for (j = 0; j < nb; j++)
			if (f[j] != f0[j])
				rows[i][j / 64] |= 1ull << j % 64;
		w[i / 8] ^= 1 << i % 8;
	}
	/* pairs of bits and dense words: affine */
	for (i = 0; i < used * 8; i++)
		for (k = 1; k < used * 8; k = k < 16 ? k + 1 : k + 31) {
			int o = (i + k) % (used * 8);
			mc_case(e->base, len, count, i * 100000 + o);
			w[i / 8] ^= 1 << i % 8;
			w[o / 8] ^= 1 << o % 8;
			TEXT(f);
			w[i / 8] ^= 1 << i % 8;
			w[o / 8] ^= 1 << o % 8;
			for (j = 0; j < nb; j++)
				CHECK((f[j] ^ f0[j]) == ((rows[i][j / 64] ^
				      rows[o][j / 64]) >> j % 64 & 1),
				      "base%d(%zu, %zu): bits %d and %d of "
				      "the stream are mixed", e->base, len,
				      count, i, o);
		}
	for (k = 0; k < 64; k++) {
		memcpy(g, f0, sizeof(g));
		for (i = 0; i < used * 8; i++)
			if (rnd_sm(k * 1000 + i / 64) >> i % 64 & 1) {
				w[i / 8] |= 1 << i % 8;
				for (j = 0; j < nb; j++)
					g[j] ^= rows[i][j / 64] >> j % 64 & 1;
			}
		mc_case(e->base, len, count, 900000000 + k);
		TEXT(f);
		CHECK(!memcmp(f, g, nb), "base%d(%zu, %zu): text not explained"
		      " bit by bit", e->base, len, count);
		memset(w, 0, sizeof(w));
	}
	rk = rank(rows, used * 8);
	CHECK(rk == nb, "base%d(%zu, %zu): the %d bits of the characters hold "
	      "only %d independent ones", e->base, len, count, nb, rk);
	mc_count_transitions(used * 8 * 3);
}

static int max_count(void) { return mc_thorough ? 34 : 18; }

static void s_shape(void *arg)
{
	const struct enc *e = arg;
	size_t count, len, want;
	int s;
	for (count = 0; count <= (size_t)max_count(); count++) {
		want = total(e, count);
		for (len = 0; len <= want + 4; len++)
			for (s = 0; s < 8; s++) {
				mc_case(e->base, len, count, s);
				rnd_fresh(s);
				free(text(e, len, count, s));
			}
	}
	/* larger ones, around the size of the generator's buffer too */
	for (count = 100; count < 1500; count += 97)
		for (s = 0; s < 8; s++) {
			rnd_fresh(s);
			mc_case(e->base, count, s, 0);
			free(text(e, total(e, count) + 1, count, s));
			free(text(e, total(e, count), count, s));
			free(text(e, 33, count, s));
		}
	rnd_fresh(1);
	mc_count_transitions(mc_n_nontrivial);
	mc_sample("base%d: all lengths for up to %d bytes", e->base,
		  max_count());
}

static void s_indep(void *arg)
{
	const struct enc *e = arg;
	size_t count, len, want;
	for (count = 1; count <= (size_t)max_count(); count++) {
		want = total(e, count);
		for (len = 2; len <= want + 1; len++) {
			/* complete texts, and cuts of some */
			if (len != want + 1 && count > 11 && len % 5)
				continue;
			indep(e, len, count);
		}
	}
	mc_sample("base%d: independence of the characters", e->base);
}

/* the largest counts, and those refused */
static void s_limits(void *arg)
{
	static const size_t ks[] = { 0, INT_MAX, INT_MAX / 2, INT_MAX / 4 * 3,
		INT_MAX / 8 * 5, 1ull << 31, 1ull << 32, (1ull << 32) / 2 * 3,
		(1ull << 32) / 8 * 5, (1ull << 32) / 4 * 3, 3ull << 31, 5ull << 31, 5ull << 32,
		1ull << 63, SIZE_MAX / 2, SIZE_MAX / 4 * 3, SIZE_MAX / 8 * 5,
		SIZE_MAX, SIZE_MAX / 3, SIZE_MAX / 5 };
	static const size_t lens[] = { 0, 1, 2, 9, 40 };
	unsigned i, k, l;
	int d, r;
	(void)arg;
	for (k = 0; k < 4; k++)
		for (i = 0; i < sizeof(ks) / sizeof(ks[0]); i++)
			for (d = -12; d <= 12; d++)
				for (l = 0; l < 5; l++) {
					size_t c = ks[i] + d, len = lens[l], n;
					unsigned __int128 want = k == 3 ? c :
						((unsigned __int128)c +
						 encs[k].in - 1) / encs[k].in *
						encs[k].out;
					char *b = malloc(len ? len : 1);
					mc_case(k, c, len, 0);
					mc_n_nontrivial++;
					memset(b, '~', len);
					r = k == 3 ? futils_random_string(len ?
						b : NULL, len, c, "abc") :
						gen(&encs[k], len ? b : NULL,
						    len, c);
					if (want > INT_MAX)
						CHECK(r == -EINVAL, "%s, %zu "
						      "bytes: %d and not "
						      "EINVAL", k == 3 ?
						      "string" : "text", c, r);
					else {
						CHECK(r >= 0 && (unsigned)r == want,
						      "%u, %zu bytes: %d", k,
						      c, r);
						n = want < len ? want :
							len ? len - 1 : 0;
						if (len)
							CHECK(strlen(b) == n,
							      "%u, %zu bytes "
							      "cut at %zu: "
							      "length %zu", k,
							      c, len,
							      strlen(b));
					}
					free(b);
				}
	mc_count_transitions(10000);
	mc_sample("counts around the limits of int and size_t");
}

/* ---- strings over any alphabet ---- */
static char abc[400];
static void alphabet(int n)
{
	int i;
	for (i = 0; i < n; i++)
		abc[i] = (i * 37 + 0xb1) % 255 + 1;	/* distinct below 255 */
	abc[n] = 0;
}

static void s_string(void *arg)
{
	int lo = *(int *)arg, hi = lo + 8, n, s;
	size_t count, len, i, k;
	for (n = lo; n < hi; n++) {
		alphabet(n);
		for (count = 0; count <= 12; count++)
			for (len = 0; len <= count + 4; len++)
				for (s = 0; s < 4; s++) {
					char *b = malloc(len ? len : 1);
					char *a = strdup(abc);
					int r;
					mc_case(n, count, len, s);
					mc_n_nontrivial++;
					rnd_fresh(s);
					memset(b, '~', len);
					r = futils_random_string(len ? b : NULL,
								 len, count, a);
					CHECK(r == (int)(n ? count : 0),
					      "string(%zu, %zu) over %d: %d",
					      len, count, n, r);
					CHECK(!strcmp(a, abc), "the alphabet "
					      "was changed");
					k = !n ? 0 : count < len ? count :
						len ? len - 1 : 0;
					for (i = 0; i < k; i++)
						CHECK(b[i] && strchr(abc, b[i]),
						      "string(%zu, %zu) over "
						      "%d: character %#x", len,
						      count, n, b[i] & 255);
					if (len)
						CHECK(b[k] == 0, "string(%zu, "
						      "%zu) over %d is not "
						      "terminated at %zu", len,
						      count, n, k);
					free(a);
					free(b);
				}
	}
	rnd_fresh(1);
	mc_count_transitions(1000);
	mc_sample("strings over %d to %d characters", lo, hi - 1);
}

/* all the words of the stream: each string equally often */
static uint32_t *scnt;
static void spread(int n, int count)
{
	char b[8];
	int W = 99, u, i, k, s;
	uint64_t w, nw, tot = 1, id;
	uint8_t z[4] = { 0 };
	int idx[256];
	alphabet(n);
	for (i = 0; i < n; i++)
		idx[(uint8_t)abc[i]] = i % 255;
	for (i = 0; i < 64; i++) {
		rnd_shifted(i);
		futils_random_string(b, sizeof(b), count, abc);
		u = rnd_used();
		if (u >= i && u - i < W)
			W = u - i;
	}
	for (i = 0; i < 4; i++) {
		memset(z, i * 0x55, 4);
		rnd_stream(z, 4);
		futils_random_string(b, sizeof(b), count, abc);
		u = rnd_used();
		if (u >= 0 && u < W && u >= 4)
			W = u;
	}
	if (W > 3)
		return;
	for (i = 0; i < count; i++)
		tot *= n < 255 ? n : 255;
	nw = 1ull << (8 * W);
	memset(scnt, 0, tot * sizeof(*scnt));
	for (w = 0; w < nw; w++) {
		mc_case(n, count, w, 0);
		rnd_stream(&w, W);
		s = futils_random_string(b, sizeof(b), count, abc);
		CHECK(s == count, "string: %d", s);
		if (rnd_used() != W)
			continue;
		for (id = 0, k = 0; k < count; k++)
			id = id * (n < 255 ? n : 255) + idx[(uint8_t)b[k]];
		scnt[id]++;
	}
	for (id = 0; id < tot; id++) {
		/* a character which is twice in the alphabet counts double */
		uint64_t mult = n > 255 ? 1 + (id + 255 < (unsigned)n) : 1;
		CHECK(scnt[id] && scnt[id] * (n > 255 && 255 < n ? 2 : 1) ==
		      scnt[0] * mult, "string of %d over %d characters: text "
		      "%lu from %u words and text 0 from %u", count, n, id,
		      scnt[id], scnt[0]);
	}
	mc_n_nontrivial += nw;
	mc_count_transitions(nw);
}

static void s_spread(void *arg)
{
	int lo = *(int *)arg, n;
	for (n = lo; n < lo + 8; n++) {
		if (!n)
			continue;
		spread(n, 1);
		spread(n, 2);
		if (n == 3 || n == 5 || n == 8 || (mc_thorough && n % 7 == 3))
			spread(n, 3);
	}
	mc_sample("strings over %d..%d characters: all words of 1 and 2 bytes",
		  lo, lo + 7);
}
static void s_spread_big(void *arg)
{
	static const int ns[] = { 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300 };
	unsigned i;
	(void)arg;
	for (i = 0; i < sizeof(ns) / sizeof(ns[0]); i++)
		if (ns[i] != 255)
			spread(ns[i], 1);
		else
			spread(255, 1);
	spread(100, 2);
	spread(129, 2);
	mc_sample("strings over 65 to 300 characters");
}

/* ---- shuffles ---- */
/* items are tagged with their rank in all their bytes */
static uint8_t *items(int n, int size)
{
	uint8_t *p = malloc(n * size ? n * size : 1);
	int i, j;
	for (i = 0; i < n; i++)
		for (j = 0; j < size; j++)
			p[i * size + j] = j == 1 ? i >> 8 : (i + j * 29) & 255;
	return p;
}
static int item_at(const uint8_t *p, int n, int size, int i)
{
	int j, k = p[i * size];
	if (size > 1)
		k |= p[i * size + 1] << 8;
	CHECK(k < n, "shuffle of %d items of %d bytes: item %d is broken", n,
	      size, i);
	for (j = 0; j < size; j++)
		CHECK(p[i * size + j] == (j == 1 ? k >> 8 :
		      ((k + j * 29) & 255)), "shuffle of %d items of %d bytes:"
		      " item %d is broken", n, size, i);
	return k;
}
static void perm_of(const uint8_t *p, int n, int size, int *perm)
{
	static uint8_t seen[70000];
	int i;
	memset(seen, 0, n);
	for (i = 0; i < n; i++) {
		perm[i] = item_at(p, n, size, i);
		CHECK(!seen[perm[i]], "shuffle of %d items of %d bytes: item "
		      "%d twice", n, size, perm[i]);
		seen[perm[i]] = 1;
	}
}

static int perm[70000];

static void s_shuffle_shape(void *arg)
{
	static const int sizes[] = { 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24,
		100, 255, 257, 1000 };
	static const int ns[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 100,
		255, 256 };
	unsigned a, b, s, f;
	(void)arg;
	for (a = 0; a < sizeof(sizes) / sizeof(sizes[0]); a++)
		for (b = 0; b < sizeof(ns) / sizeof(ns[0]); b++)
			for (s = 0; s < 12; s++)
				for (f = 0; f < 2; f++) {
					int n = ns[b], size = sizes[a], r;
					uint8_t *p = items(n, size);
					mc_case(n, size, s, f);
					mc_n_nontrivial++;
					vk_reset();
					rnd_fresh(s);
					if (f) {
						vk_fault_always =
							VKM(VKF_MALLOC);
					}
					r = futils_random_shuffle(p, n, size);
					vk_fault_always = 0;
					if (f && vk_faults_done)
						CHECK(r < 0, "shuffle of %d x %d without memory:"
						      " %d", n, size, r);
					else
						CHECK(r == 0, "shuffle of %d x %d: %d", n,
						      size, r);
					perm_of(p, n, size, perm);
					CHECK(vk_mem_live == 0, "shuffle "
					      "leaks");
					free(p);
				}
	vk_reset();
	rnd_fresh(1);
	CHECK(futils_random_shuffle(NULL, 3, 4) == -EINVAL, "shuffle(NULL)");
	CHECK(futils_random_shuffle(perm, 3, 0) == 0, "shuffle of nothing");
	CHECK(futils_random_shuffle(perm, 1, 4) == 0, "shuffle of one");
	CHECK(futils_random_shuffle(perm, 0, 4) == 0, "shuffle of none");
	mc_count_transitions(mc_n_nontrivial);
	mc_sample("shuffles of 17 sizes of items, with and without memory");
}

static void s_shuffle_many(void *arg)
{
	static const int ns[] = { 257, 258, 511, 512, 513, 1000, 4096, 65535,
		65536, 65537 };
	unsigned b, s;
	int i, size;
	(void)arg;
	for (b = 0; b < sizeof(ns) / sizeof(ns[0]); b++)
		for (size = 2; size <= 10; size += 8)
			for (s = 0; s < (ns[b] > 5000 ? 2 : 20); s++) {
				int n = ns[b], fixed = 0;
				uint8_t *p = items(n, size);
				if (n > 65536 && size == 2) {
					/* the tag has 16 bits */
					free(p);
					continue;
				}
				mc_case(n, size, s, 0);
				rnd_fresh(s);
				CHECK(futils_random_shuffle(p, n, size) == 0,
				      "shuffle of %d", n);
				if (n <= 65536)
					perm_of(p, n, size, perm);
				for (i = 0; i < n && n <= 65536; i++)
					fixed += perm[i] == i;
				/* chance: below 2^-60 */
				CHECK(fixed < 22, "shuffle of %d items leaves "
				      "%d at their place", n, fixed);
				free(p);
				mc_n_nontrivial++;
			}
	rnd_fresh(1);
	mc_count_transitions(mc_n_nontrivial);
}

/* large items, and many of them */
static void s_shuffle_big(void *arg)
{
	static const struct { size_t n, size; } q[] = { { 3, 4096 },
		{ 5, 65535 }, { 5, 65536 }, { 5, 65537 }, { 4, 131072 },
		{ 3, 262147 }, { 70000, 4 }, { 200000, 4 }, { 200000, 12 },
		{ 1 << 20, 8 }, { 140000, 300 }, { 5000, 900001 } };
	int k = *(int *)arg;
	size_t n = q[k].n, size = q[k].size, i, j, s, cell[8][8];
	uint8_t *p = malloc(n * size), *seen = malloc(n);
	if (!p || !seen)
		mc_broken("memory");
	for (s = 0; s < (n < 100 ? 40 : 1); s++) {
		/* the rank in the first 4 bytes and the last */
		for (i = 0; i < n; i++) {
			memset(p + i * size, (uint8_t)(i * 7 + 1), size);
			memcpy(p + i * size, &i, 4);
		}
		mc_case(n, size, s, 5);
		mc_n_nontrivial++;
		vk_reset();
		rnd_fresh(s);
		CHECK(futils_random_shuffle(p, n, size) == 0, "shuffle of %zu "
		      "items of %zu bytes", n, size);
		mc_n_cases++;
		memset(seen, 0, n);
		memset(cell, 0, sizeof(cell));
		for (i = 0; i < n; i++) {
			uint32_t id;
			uint8_t b;
			memcpy(&id, p + i * size, 4);
			b = (uint8_t)(id * 7 + 1);
			CHECK(id < n && !seen[id], "shuffle of %zu items of "
			      "%zu bytes: item %u is broken or twice", n, size,
			      id);
			seen[id] = 1;
			for (j = 4; j < size; j += j < 64 || j + 64 > size ||
			     n < 100 ? 1 : 59)
				CHECK(p[i * size + j] == b, "shuffle of %zu "
				      "items of %zu bytes: item %u is broken",
				      n, size, id);
			cell[i * 8 / n][(size_t)id * 8 / n]++;
		}
		/* from every eighth to every eighth: chance is below 2^-60 */
		for (i = 0; i < 8 && n >= 5000; i++)
			for (j = 0; j < 8; j++) {
				double e = n / 64.0, d = cell[i][j] - e;
				CHECK(d * d < 100 * e, "shuffle of %zu items: "
				      "%zu from part %zu are in part %zu, not "
				      "about %g", n, cell[i][j], j, i, e);
			}
		CHECK(vk_mem_live == 0, "leak");
	}
	free(seen);
	free(p);
	mc_count_transitions(mc_n_nontrivial);
}

/* the first and last places of many items: each item comes there about as
 * often as elsewhere */
static void s_shuffle_edges(void *arg)
{
	static const size_t ns[] = { 300, 1000, 4097, 30000, 32769, 65535,
		65536, 65537, 70000, 131071, 131073, 200000, 262145, 1 << 20 };
	size_t n = ns[*(int *)arg], e[8] = { 0, 1, 2, n / 2, n / 2 + 1, n - 3,
		n - 2, n - 1 }, i, j, s, runs = n > 100000 ? 24 : 60;
	uint32_t *p = malloc(4 * n), c[8][8];
	unsigned most = n < 1000 ? 9 : n < 60000 ? 6 : 4;
	memset(c, 0, sizeof(c));
	for (s = 0; s < runs; s++) {
		for (i = 0; i < n; i++)
			p[i] = i;
		mc_case(n, s, 0, 6);
		mc_n_nontrivial++;
		vk_reset();
		rnd_fresh(s);
		CHECK(futils_random_shuffle(p, n, 4) == 0, "shuffle of %zu", n);
		for (i = 0; i < 8; i++)
			for (j = 0; j < 8; j++)
				c[i][j] += p[e[j]] == e[i];
	}
	/* chance: below 2^-33 for 300 items, 2^-40 for more */
	for (i = 0; i < 8; i++)
		for (j = 0; j < 8; j++)
			CHECK(c[i][j] < most, "%zu shuffles of %zu items: item "
			      "%zu comes %u times at place %zu", runs, n, e[i],
			      c[i][j], e[j]);
	free(p);
	mc_count_transitions(mc_n_nontrivial);
}

/* more than 2^32 items: the start of the shuffle, ended at the first request
 * of entropy or after a time; where it wrote */
static sigjmp_buf endless_jb;
static void endless_alarm(int sig)
{
	(void)sig;
	siglongjmp(endless_jb, 1);
}
static ssize_t endless_getrandom(void *buf, size_t n, unsigned flags)
{
	(void)buf;
	(void)n;
	(void)flags;
	siglongjmp(endless_jb, 1);
}

static void s_shuffle_endless(void *arg)
{
	static const uint64_t ns[] = { 0x100000001, 0x180000000, 0x200000003 };
	uint64_t n = ns[*(int *)arg];
	size_t pages = (n + 4095) / 4096, i, total = 0, part[8] = { 0 };
	uint8_t *p = mmap(NULL, pages * 4096, PROT_READ | PROT_WRITE,
			  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	unsigned char *in = malloc(pages);
	volatile int ended = 0;
	uint8_t b[8];
	struct itimerval it = { { 0, 0 }, { 2, 0 } }, off = { { 0, 0 } };
	if (p == MAP_FAILED || !in)
		mc_broken("address space");
	madvise(p, pages * 4096, MADV_NOHUGEPAGE);
	mc_case(n, 0, 0, 7);
	vk_reset();
	rnd_fresh(3);
	futils_random(b, 8);
	vk_getrandom_hook = endless_getrandom;
	signal(SIGVTALRM, endless_alarm);
	if (!sigsetjmp(endless_jb, 1)) {
		setitimer(ITIMER_VIRTUAL, &it, NULL);
		futils_random_shuffle(p, n, 1);
		ended = 1;
	}
	setitimer(ITIMER_VIRTUAL, &off, NULL);
	CHECK(!ended, "the shuffle of %#lx items ends at once", n);
	if (mincore(p, pages * 4096, in) < 0)
		mc_broken("mincore");
	for (i = 0; i < pages; i++)
		if (in[i] & 1) {
			total++;
			part[i * 8 / pages]++;
		}
	/* some of the first hundreds of swaps go to each eighth */
	for (i = 0; i < 8 && total > 200; i++)
		CHECK(part[i] >= total / 64, "the shuffle of %#lx items begins "
		      "with %zu writes, of which %zu in eighth %zu of the "
		      "memory", n, total, part[i], i);
	mc_n_nontrivial++;
	mc_outcome(total > 200);
	munmap(p, pages * 4096);
	free(in);
	rnd_reset();
}

/* items of more than 2^30 bytes: their first pages are their own, and they
 * share the memory of the others */
static void s_shuffle_huge(void *arg)
{
	const size_t chunk = 4 << 20;
	size_t n = *(int *)arg ? 6 : 3, i, o, k, size = *(int *)arg ?
		(1ul << 30) + 4096 : (1ul << 31) + 4096;
	int fd = memfd_create("items", 0), seen, s;
	uint8_t *p = mmap(NULL, n * size + 2 * chunk, PROT_NONE, MAP_PRIVATE |
			  MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *q;
	if (p == MAP_FAILED || fd < 0 || ftruncate(fd, chunk) < 0)
		mc_broken("address space");
	for (i = 0; i < n; i++) {
		q = p + i * size;
		for (o = 4096; o < size; o += k) {
			k = size - o < chunk ? size - o : chunk;
			if (mmap(q + o, k, PROT_READ | PROT_WRITE, MAP_SHARED |
				 MAP_FIXED, fd, 0) == MAP_FAILED)
				mc_broken("mmap");
		}
		if (mprotect(q, 4096, PROT_READ | PROT_WRITE) < 0)
			mc_broken("mprotect");
	}
	mc_patience = 40;
	for (s = 0; s < 2; s++) {
		for (i = 0; i < n; i++)
			memset(p + i * size, i + 1, 4096);
		mc_case(n, size, s, 8);
		mc_n_nontrivial++;
		vk_reset();
		rnd_fresh(s + 5);
		CHECK(futils_random_shuffle(p, n, size) == 0, "shuffle of %zu "
		      "items of %zu bytes", n, size);
		for (seen = i = 0; i < n; i++) {
			q = p + i * size;
			CHECK(q[0] && q[0] <= n && !(seen >> q[0] & 1) &&
			      q[0] == q[4095], "shuffle of %zu items of %zu "
			      "bytes: item %zu is broken or twice", n, size, i);
			seen |= 1 << q[0];
			if (q[0] != i + 1)
				mc_outcome(i);
		}
	}
	mc_patience = 4;
	munmap(p, n * size + 2 * chunk);
	close(fd);
	vk_reset();
}

/* the bits of the stream which matter, by flipping each over many words;
 * then all their combinations: every permutation equally often */
static uint32_t *pcnt;
static uint64_t perm_id(int n)
{
	uint64_t id = 0;
	int i, j, c;
	for (i = 0; i < n; i++) {
		for (c = 0, j = i + 1; j < n; j++)
			c += perm[j] < perm[i];
		id = id * (n - i) + c;
	}
	return id;
}

static int one(const uint8_t *w, int W, int n, int size, uint64_t *id)
{
	uint8_t p[300];
	int i, j;
	for (i = 0; i < n; i++)
		for (j = 0; j < size; j++)
			p[i * size + j] = j == 1 ? 0 : (i + j * 29) & 255;
	rnd_stream(w, W);
	CHECK(futils_random_shuffle(p, n, size) == 0, "shuffle of %d", n);
	i = rnd_used();
	perm_of(p, n, size, perm);
	*id = perm_id(n);
	return i;
}

struct sh { int n, size, full; };
static void s_shuffle_even(void *arg)
{
	const struct sh *c = arg;
	uint8_t w[64], rel[64];
	int n = c->n, size = c->size, W = 99, u, u2, i, k, nr = 0, b;
	uint64_t id, id2, x, nw, fact = 1;
	int where[64];
	for (i = 2; i <= n; i++)
		fact *= i;
	memset(w, 0, sizeof(w));
	for (k = 0; k < 128; k++) {
		memset(w, k & 1 ? 0 : 255, sizeof(w));
		for (i = 0; k > 1 && i < 64; i++)
			w[i] = rnd_sm(k * 64 + i);
		rnd_stream(w, 0);
		u = one(w, 64, n, size, &id);
		for (i = 0; i < 64; i++)
			w[i] = rnd_rest[i];
		rnd_shifted(k);
		{
			uint8_t p[300] = { 0 };
			CHECK(!futils_random_shuffle(p, n, size), "shuffle");
			u = rnd_used();
			if (u >= k && u - k < W)
				W = u - k;
		}
	}
	CHECK(W <= 64, "shuffle of %d uses %d bytes", n, W);
	if (c->full) {
		if (W > 3)
			return;
		nr = 8 * W;
		for (i = 0; i < nr; i++)
			where[i] = i;
	} else {
		memset(rel, 0, sizeof(rel));
		for (k = 0; k < 2000; k++) {
			for (i = 0; i < W; i++)
				w[i] = k == 0 ? 0 : k == 1 ? 255 :
					rnd_sm(k * 64 + i);
			u = one(w, W, n, size, &id);
			if (u != W)
				continue;	/* a choice is drawn again */
			for (b = 0; b < 8 * W; b++) {
				w[b / 8] ^= 1 << b % 8;
				u2 = one(w, W, n, size, &id2);
				w[b / 8] ^= 1 << b % 8;
				if (u2 != u || id2 != id)
					rel[b / 8] |= 1 << b % 8;
			}
		}
		for (b = 0; b < 8 * W; b++)
			if (rel[b / 8] >> b % 8 & 1) {
				if (nr < 64)
					where[nr] = b;
				nr++;
			}
		if (nr > 24) {
			mc_note_cap("shuffle: too many random bits");
			return;
		}
	}
	nw = 1ull << nr;
	memset(pcnt, 0, fact * sizeof(*pcnt));
	memset(w, 0, sizeof(w));
	for (x = 0; x < nw; x++) {
		for (i = 0; i < W; i++)
			w[i] = rnd_sm(x * 16 + i);	/* those which do not matter */
		if (c->full)
			memcpy(w, &x, W);
		else
			for (i = 0; i < nr; i++) {
				w[where[i] / 8] &= ~(1 << where[i] % 8);
				w[where[i] / 8] |= (x >> i & 1) <<
					where[i] % 8;
			}
		mc_case(n, size, x, 0);
		u = one(w, W, n, size, &id);
		if (u == W)
			pcnt[id]++;
	}
	for (id = 0; id < fact; id++)
		CHECK(pcnt[id] && pcnt[id] == pcnt[0], "shuffle of %d items of "
		      "%d bytes: permutation %lu from %u words, permutation 0 "
		      "from %u", n, size, id, pcnt[id], pcnt[0]);
	mc_n_nontrivial += nw;
	mc_count_transitions(nw);
	mc_sample("shuffle of %d items of %d bytes: %lu words, %lu "
		  "permutations", n, size, nw, fact);
}

/* many items: the first word decides evenly between n results */
static void s_shuffle_first(void *arg)
{
	static const int ns[] = { 3, 5, 6, 7, 10, 12, 24, 40, 100, 128, 129,
		130, 200, 255, 256, 257, 258, 300 };
	static uint8_t w[RND_LEARN], p[300 * 2 + 2];
	unsigned k;
	(void)arg;
	for (k = 0; k < sizeof(ns) / sizeof(ns[0]); k++) {
		int n = ns[k], K, i, u, distinct = 0, W, wide, again = 0;
		uint64_t x;
		struct { uint64_t h; uint32_t c; } tab[1024];
		memset(w, 0, sizeof(w));
		/* consumption when the stream is null */
		for (K = n - 1; K < RND_LEARN - 8; K++) {
			rnd_stream(w, K);
			CHECK(!futils_random_shuffle(p, n, 2), "shuffle");
			if (rnd_used() == K)
				break;
		}
		if (K == RND_LEARN - 8)
			continue;
		memset(tab, 0, sizeof(tab));
		/* bytes of the first word; wide ones are only looked at for
		 * a word which is divided without any rejection */
		wide = n <= 256 && K > 2 * (n - 1);
		W = n > 256 || K > n - 1 ? 2 : 1;
		for (x = 0; x < 1u << (8 * W); x++) {
			uint64_t h = 0;
			mc_case(n, x, 0, 0);
			for (i = 0; i < n; i++) {
				p[2 * i] = i & 255;
				p[2 * i + 1] = i >> 8;
			}
			memcpy(w, &x, W);
			rnd_stream(w, K);
			CHECK(!futils_random_shuffle(p, n, 2), "shuffle");
			u = rnd_used();
			if (u != K) {
				again = 1;
				continue;
			}
			for (i = 0; i < n; i++)
				h = mc_mix(h, p[2 * i] | p[2 * i + 1] << 8);
			for (i = h % 1024; tab[i].c && tab[i].h != h;
			     i = (i + 1) % 1024)
				;
			if (!tab[i].c && ++distinct > n && wide)
				break;
			if (distinct > n)
				mc_fail("shuffle of %d: the first word gives "
					"more results than items", n);
			tab[i].h = h;
			tab[i].c++;
			mc_n_nontrivial++;
		}
		memset(w, 0, sizeof(w));
		if (wide && (distinct != n || again))
			continue;
		CHECK(distinct == n, "shuffle of %d: the first word gives %d "
		      "results", n, distinct);
		for (i = 0, u = 0; i < 1024; i++)
			if (tab[i].c) {
				if (!u)
					u = tab[i].c;
				CHECK((int)tab[i].c == u, "shuffle of %d: the "
				      "first word is biased", n);
			}
	}
	mc_count_transitions(mc_n_nontrivial);
	mc_sample("shuffles of 100 to 300 items: all first words");
}

int main(int argc, char **argv)
{
	static int ints[16];
	static const struct sh shs[] = { { 2, 1, 1 }, { 3, 1, 1 }, { 3, 3, 1 },
		{ 3, 8, 1 }, { 3, 9, 1 }, { 3, 16, 1 }, { 4, 1, 1 },
		{ 4, 4, 0 }, { 4, 9, 0 }, { 5, 1, 0 }, { 5, 8, 0 },
		{ 5, 20, 0 }, { 6, 1, 0 }, { 6, 12, 0 }, { 7, 1, 0 },
		{ 8, 2, 0 }, { 9, 1, 0 }, { 4, 9, 1 } };
	unsigned i;
	char name[60];
	mc_init(argc, argv);
	mc_set_reset(rnd_reset);
	rnd_setup();
	scnt = malloc(8u << 20);
	pcnt = malloc(8u << 20);
	for (i = 0; i < 3; i++) {
		snprintf(name, sizeof(name), "shape %d", encs[i].base);
		mc_explore(name, s_shape, (void *)&encs[i]);
	}
	mc_explore("limits", s_limits, NULL);
	for (i = 0; i < 9; i++) {
		ints[i] = i * 8;
		snprintf(name, sizeof(name), "string %d", ints[i]);
		mc_explore(name, s_string, &ints[i]);
	}
	mc_explore("shuffle shape", s_shuffle_shape, NULL);
	mc_explore("shuffle many", s_shuffle_many, NULL);
	for (i = 0; i < 11 + mc_thorough; i++) {
		static int big[12];
		big[i] = i;
		snprintf(name, sizeof(name), "shuffle big %d", i);
		mc_explore(name, s_shuffle_big, &big[i]);
	}
	for (i = 0; i < 14; i++) {
		static int k[14];
		k[i] = i;
		snprintf(name, sizeof(name), "shuffle edges %d", i);
		mc_explore(name, s_shuffle_edges, &k[i]);
		if (i < 3) {
			snprintf(name, sizeof(name), "shuffle endless %d", i);
			mc_explore(name, s_shuffle_endless, &k[i]);
		}
		if (i < 2) {
			snprintf(name, sizeof(name), "shuffle huge %d", i);
			mc_explore(name, s_shuffle_huge, &k[i]);
		}
	}
	if (!rnd_next) {
		mc_note_cap("the upcoming bytes of the generator were not "
			    "found in its memory: fixed seeds only");
		return mc_end();
	}
	for (i = 0; i < 3; i++) {
		snprintf(name, sizeof(name), "independence %d", encs[i].base);
		mc_explore(name, s_indep, (void *)&encs[i]);
	}
	for (i = 0; i < 9; i++) {
		snprintf(name, sizeof(name), "spread %d", ints[i]);
		mc_explore(name, s_spread, &ints[i]);
	}
	mc_explore("spread big", s_spread_big, NULL);
	for (i = 0; i < sizeof(shs) / sizeof(shs[0]); i++) {
		if (i == 17 && !mc_thorough)
			continue;
		snprintf(name, sizeof(name), "shuffle %d %d %d", shs[i].n,
			 shs[i].size, shs[i].full);
		mc_explore(name, s_shuffle_even, (void *)&shs[i]);
	}
	mc_explore("shuffle first", s_shuffle_first, NULL);
	return mc_end();
}
