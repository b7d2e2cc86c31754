/* C15: bounded random numbers, over the enumerated words of the raw stream */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include "rnd.h"
#include <errno.h>
#include <math.h>

/* ---- the functions as maps of stream words ---- */
static uint64_t call(int fn, uint64_t m)
{
	switch (fn) {
	case 8: return futils_randomr8_maximum(m);
	case 16: return futils_randomr16_maximum(m);
	case 32: return futils_randomr32_maximum(m);
	case 64: return futils_randomr64_maximum(m);
	case 108: return futils_randomr8();
	case 116: return futils_randomr16();
	case 132: return futils_randomr32();
	case 164: return futils_randomr64();
	case 153: {
		double d = futils_randomrd(), s = d * 0x1p53;
		CHECK(d >= 0 && d < 1, "randomrd is %a", d);
		CHECK(s == floor(s), "randomrd is %a, not a multiple of 2^-53",
		      d);
		return (uint64_t)s;
	}
	case 124: {
		float d = futils_randomrf(), s = d * 0x1p24f;
		CHECK(d >= 0 && d < 1, "randomrf is %a", d);
		CHECK(s == floorf(s), "randomrf is %a, not a multiple of 2^-24",
		      d);
		return (uint64_t)s;
	}
	}
	abort();
}
static const int bits_of[] = { [8] = 8, [16] = 16, [32] = 32, [64] = 64,
	[108] = 8, [116] = 16, [132] = 32, [164] = 64, [153] = 53, [124] = 24 };

static uint64_t run(int fn, uint64_t m, uint64_t w, int n, int *used)
{
	uint64_t v;
	mc_case(fn, m, w, n);
	rnd_stream(&w, n);
	v = call(fn, m);
	CHECK(fn >= 100 || v <= m, "random%d_maximum(%#lx) is %#lx", fn, m, v);
	*used = rnd_used();
	return v;
}

/* stream bytes a call takes when it does not draw again */
static int width(int fn, uint64_t m)
{
	static const uint64_t ws[] = { 0, ~0ull, 0x5555555555555555ull,
		0xaaaaaaaaaaaaaaaaull, 0x00ff00ff00ff00ffull,
		0xff00ff00ff00ff00ull, 0x0123456789abcdefull, 1, 1ull << 63 };
	int i, u, best = 99;
	for (i = 0; i < 9; i++) {
		run(fn, m, ws[i], 8, &u);
		/* less than the word: found in the pattern only after it */
		rnd_stream(&ws[i], 0);
		call(fn, m);
		u = rnd_used();
		if (u >= 0 && u < best)
			best = u;
	}
	for (i = 0; i < 64; i++) {
		rnd_shifted(i);
		call(fn, m);
		u = rnd_used();
		if (u >= 0 && u - i < best)
			best = u - i;
	}
	return best;
}

/* all the words of W bytes: each value equally often, a rejected word is
 * forgotten */
static uint32_t *cnt;
static uint64_t redraw(int fn, uint64_t m, int W)
{
	uint64_t v;
	rnd_shifted(W);
	v = call(fn, m);
	return v;
}
static int count(int fn, uint64_t m, int W)
{
	uint64_t w, n = 1ull << (8 * W), v, top, again = 0, acc = 0;
	int used, have = 0;
	top = fn >= 100 ? (1ull << bits_of[fn]) - 1 : m;
	if (W == 0 || W > 3 || top >= n)
		return 0;
	memset(cnt, 0, (top + 1) * sizeof(*cnt));
	for (w = 0; w < n; w++) {
		v = run(fn, m, w, W, &used);
		CHECK(v <= top, "function %d: %lx", fn, v);
		if (used == W) {
			cnt[v]++;
			acc++;
			continue;
		}
		if (!have) {
			have = 1;
			again = redraw(fn, m, W);
		}
		CHECK(v == again, "random%d_maximum(%#lx): after the rejected "
		      "word %#lx the next gives %#lx instead of %#lx", fn, m,
		      w, v, again);
	}
	CHECK(acc, "random%d_maximum(%#lx): never at once", fn, m);
	for (v = 0; v <= top; v++)
		CHECK(cnt[v] == cnt[0] && cnt[v], "random%d(%#lx): %#lx is given by %u "
		      "words of %lu, %#x by %u", fn, m, v, cnt[v], n, 0,
		      cnt[0]);
	mc_n_nontrivial += n;
	mc_count_transitions(n);
	return 1;
}

/* the words of more bytes: without rejection, the map is linear over bits and
 * has the full rank, so that all the values are equally likely */
struct lin {
	int W, rank;
	uint64_t col[64];	/* image of each bit of the word */
	uint64_t red[64], comb[64];	/* reduced images by leading bit */
	uint64_t ker[64];
	int nker;
};
static uint64_t apply(const struct lin *l, uint64_t w)
{
	uint64_t v = 0;
	for (; w; w &= w - 1)
		v ^= l->col[__builtin_ctzll(w)];
	return v;
}
/* a word whose image is v */
static int invert(const struct lin *l, uint64_t v, uint64_t *w)
{
	*w = 0;
	while (v) {
		int b = 63 - __builtin_clzll(v);
		if (!l->red[b])
			return 0;
		v ^= l->red[b];
		*w ^= l->comb[b];
	}
	return 1;
}
static void learn(int fn, uint64_t m, int bits, struct lin *l)
{
	static const uint8_t bb[5] = { 0x00, 0xff, 0x01, 0x80, 0x55 };
	int i, j, u, n;
	uint64_t v, w, k;
	memset(l, 0, sizeof(*l));
	l->W = width(fn, m);
	CHECK(l->W * 8 >= bits && l->W <= 8, "random%d(%#lx) uses %d bytes of the stream for "
	      "%d bits", fn, m, l->W, bits);
	n = 8 * l->W;
	for (i = 0; i < n; i++) {
		l->col[i] = run(fn, m, 1ull << i, l->W, &u);
		CHECK(u == l->W, "random%d(%#lx) draws again for nothing", fn,
		      m);
	}
	v = run(fn, m, 0, l->W, &u);
	CHECK(v == 0 && u == l->W, "random%d(%#lx): the null word gives %lx",
	      fn, m, v);
	for (i = 0; i < n; i++)
		for (j = 0; j < i; j++) {
			w = 1ull << i | 1ull << j;
			v = run(fn, m, w, l->W, &u);
			CHECK(v == apply(l, w) && u == l->W, "random%d(%#lx) "
			      "mixes bits %d and %d of the stream", fn, m, i,
			      j);
		}
	/* products of boundary bytes */
	for (k = 1, i = 0; i < l->W; i++)
		k *= 5;
	if (!mc_thorough && k > 16384)
		k = 15625;
	for (; k--;) {
		uint64_t q = k;
		for (w = 0, i = 0; i < l->W; i++, q /= 5)
			w |= (uint64_t)bb[q % 5] << (8 * i);
		v = run(fn, m, w, l->W, &u);
		CHECK(v == apply(l, w) && u == l->W, "random%d(%#lx): word "
		      "%#lx gives %#lx, not %#lx", fn, m, w, v, apply(l, w));
		mc_n_nontrivial++;
	}
	/* rank and inverse */
	for (i = 0; i < n; i++) {
		uint64_t c = 1ull << i;
		v = l->col[i];
		while (v) {
			int b = 63 - __builtin_clzll(v);
			if (!l->red[b]) {
				l->red[b] = v;
				l->comb[b] = c;
				l->rank++;
				break;
			}
			v ^= l->red[b];
			c ^= l->comb[b];
		}
		if (!v)
			l->ker[l->nker++] = c;
	}
	CHECK(l->rank == bits, "random%d(%#lx): the values have %d random "
	      "bits instead of %d", fn, m, l->rank, bits);
	mc_n_nontrivial += n * n / 2;
	mc_count_transitions(n * n / 2);
}

/* a maximum with the same number of bits as the learnt map */
static void bounded(int fn, uint64_t m, const struct lin *l)
{
	uint64_t vs[200], w, v, M = l->rank == 64 ? ~0ull :
		(1ull << l->rank) - 1, again = 0;
	int n = 0, i, k, u, have = 0;
	vs[n++] = 0;
	vs[n++] = 1;
	vs[n++] = m;
	vs[n++] = m - 1;
	vs[n++] = m + 1;
	vs[n++] = m + 2;
	vs[n++] = M;
	vs[n++] = M - 1;
	vs[n++] = M >> 1;
	vs[n++] = (M >> 1) + 1;
	for (i = 0; i < l->rank; i++) {
		vs[n++] = m ^ 1ull << i;
		vs[n++] = (m & ~0ull << i) + (1ull << i);
	}
	for (i = 0; i < n; i++) {
		if (vs[i] > M || !invert(l, vs[i], &w))
			continue;
		for (k = -1; k < l->nker && k < 8; k++) {
			uint64_t x = k < 0 ? w : w ^ l->ker[k];
			v = run(fn, m, x, l->W, &u);
			mc_n_nontrivial++;
			if (vs[i] <= m) {
				CHECK(v == vs[i] && u == l->W, "random%d_maximum"
				      "(%#lx): a word for %#lx gives %#lx%s",
				      fn, m, vs[i], v, u == l->W ? "" :
				      ", drawn again");
				continue;
			}
			if (!have) {
				have = 1;
				again = redraw(fn, m, l->W);
			}
			CHECK(u != l->W && v == again, "random%d_maximum(%#lx):"
			      " a word for %#lx, above, gives %#lx", fn, m,
			      vs[i], v);
		}
	}
	mc_count_transitions(n);
}

/* ---- scenarios ---- */
struct job { int fn; uint64_t lo, hi, step; };

static void s_count(void *arg)
{
	struct job *j = arg;
	uint64_t m;
	for (m = j->lo; m <= j->hi; m += j->step) {
		int W = width(j->fn, m);
		if (m == 0 && W == 0) {
			int u;
			CHECK(run(j->fn, 0, 0x1234, 2, &u) == 0, "maximum 0");
			continue;
		}
		CHECK(W >= 1 && W <= 8, "random%d_maximum(%#lx) uses %d bytes",
		      j->fn, m, W);
		if (W <= 3)
			count(j->fn, m, W);
		else if ((m & (m + 1)) == 0) {
			struct lin l;
			learn(j->fn, m, __builtin_popcountll(m), &l);
		}
		if (m + j->step < m)
			break;
	}
	mc_sample("random%d_maximum: maxima %#lx..%#lx step %#lx, all words",
		  j->fn, j->lo, j->hi, j->step);
}

static void s_wide(void *arg)
{
	struct job *j = arg;
	int b, i, n;
	struct lin l;
	for (b = j->lo; b <= (int)j->hi; b++) {
		uint64_t M = b == 64 ? ~0ull : (1ull << b) - 1;
		uint64_t h = 1ull << (b - 1), ms[200];
		learn(j->fn, M, b, &l);
		n = 0;
		ms[n++] = M;
		ms[n++] = h;
		for (i = 1; i < 4; i++) {
			ms[n++] = h + i;
			ms[n++] = M - i;
		}
		ms[n++] = h | 0x5555555555555555ull;
		ms[n++] = h | 0xaaaaaaaaaaaaaaaaull;
		ms[n++] = h | 0x9e3779b97f4a7c15ull;
		ms[n++] = h | 0x0101010101010101ull;
		ms[n++] = h | 0xfefefefefefefefeull;
		for (i = 0; i < b; i++) {
			ms[n++] = h | 1ull << i;
			ms[n++] = M ^ 1ull << i;
		}
		for (i = 0; i < n; i++) {
			ms[i] &= M;
			if (ms[i] >= h)
				bounded(j->fn, ms[i], &l);
		}
	}
	mc_sample("random%d_maximum: maxima of %lu to %lu bits", j->fn, j->lo,
		  j->hi);
}

/* every maximum of 16 bits, at its boundary */
static void s_all16(void *arg)
{
	struct job *j = arg;
	int b;
	uint64_t m;
	struct lin l;
	for (b = 9; b <= 16; b++) {
		learn(j->fn, (1ull << b) - 1, b, &l);
		for (m = 1ull << (b - 1); m < 1ull << b; m++)
			if (m >= j->lo && m <= j->hi)
				bounded(j->fn, m, &l);
	}
	mc_sample("random%d_maximum: every maximum of 16 bits at its boundary",
		  j->fn);
}

static void s_unbounded(void *arg)
{
	int fn = *(int *)arg, W = width(fn, 0);
	struct lin l;
	CHECK(W * 8 >= bits_of[fn], "function %d uses %d bytes", fn, W);
	if (W <= 3)
		count(fn, 0, W);
	learn(fn, 0, bits_of[fn], &l);
	mc_sample("unbounded function %d", fn);
}

/* the bytes of buffers: linear with full rank, and all bits both ways for the
 * longer ones */
static void s_buffer(void *arg)
{
	static uint8_t out[2000], or[2000], and[2000], ref[2000], w[64];
	size_t n, i, j;
	(void)arg;
	for (n = 1; n <= 64; n++) {
		/* each bit of the stream is seen, alone */
		uint8_t seen[64] = { 0 };
		memset(w, 0, n);
		rnd_stream(w, n);
		memset(ref, 0xcc, sizeof(ref));
		futils_random(ref, n);
		for (i = 0; i < 8 * n; i++) {
			unsigned k, bit = 0;
			w[i / 8] ^= 1 << i % 8;
			mc_case(n, i, 0, 0);
			rnd_stream(w, n);
			w[i / 8] ^= 1 << i % 8;
			memset(out, 0x33, sizeof(out));
			futils_random(out, n);
			for (k = 0, j = 0; j < n; j++)
				if (out[j] != ref[j]) {
					k += __builtin_popcount(out[j] ^ ref[j]);
					bit = out[j] ^ ref[j];
					seen[j] |= bit;
				}
			CHECK(k == 1, "random(%zu): bit %zu of the stream "
			      "changes %u bits", n, i, k);
			CHECK(out[n] == 0x33, "random(%zu) writes beyond", n);
			mc_n_nontrivial++;
		}
		for (j = 0; j < n; j++)
			CHECK(seen[j] == 0xff, "random(%zu): byte %zu has "
			      "bits that never change", n, j);
	}
	/* any length, also longer than the internal buffer */
	for (n = 1; n <= 1300; n = n < 460 ? n + 9 : n < 520 ? n + 1 : n + 97) {
		memset(or, 0, sizeof(or));
		memset(and, 255, sizeof(and));
		for (i = 0; i < 72; i++) {
			mc_case(n, i, 1, 0);
			rnd_fresh(500 + i);
			memset(out, i & 1 ? 0xff : 0, sizeof(out));
			futils_random(out, n);
			for (j = 0; j < n; j++) {
				or[j] |= out[j];
				and[j] &= out[j];
			}
			for (; j < n + 100; j++)
				CHECK(out[j] == (i & 1 ? 0xff : 0),
				      "random(%zu) writes beyond", n);
			mc_n_nontrivial++;
		}
		for (j = 0; j < n; j++)
			CHECK(or[j] == 0xff && and[j] == 0, "random(%zu): "
			      "byte %zu has constant bits", n, j);
	}
	rnd_fresh(1);
	mc_count_transitions(100000);
	mc_sample("buffers of 1 to 64 bytes bit by bit, up to 1300 bytes");
}

/* the variants which store through a pointer */
#define WRAP(bits, T) do { \
	T v, want; int r; \
	for (i = 0; i < 300; i++) { \
		uint64_t w = rnd_sm(i), m = rnd_sm(i + 1000) >> (i % 64); \
		mc_case(bits, i, 0, 0); \
		rnd_stream(&w, 8); \
		want = futils_randomr##bits(); \
		rnd_stream(&w, 8); \
		v = 0x5a; \
		r = futils_random##bits(&v); \
		CHECK(r == 0 && v == want, "random" #bits ": %d", r); \
		rnd_stream(&w, 8); \
		want = futils_randomr##bits##_maximum((T)m); \
		rnd_stream(&w, 8); \
		v = 0x5a; \
		r = futils_random##bits##_maximum(&v, (T)m); \
		CHECK(r == 0 && v == want && v <= (T)m, "random" #bits \
		      "_maximum: %d", r); \
		mc_n_nontrivial += 2; \
	} \
	CHECK(futils_random##bits(NULL) == -EINVAL, "null pointer"); \
	CHECK(futils_random##bits##_maximum(NULL, 4) == -EINVAL, \
	      "null pointer"); } while (0)
static void s_wrap(void *arg)
{
	int i;
	uint8_t b[8], c[8];
	uint64_t w = 0x0123456789abcdefull;
	(void)arg;
	WRAP(8, uint8_t);
	WRAP(16, uint16_t);
	WRAP(32, uint32_t);
	WRAP(64, uint64_t);
	CHECK(futils_random_bytes(NULL, 3) == -EINVAL, "random_bytes(NULL)");
	CHECK(futils_random_bytes(b, 0) == -EINVAL, "random_bytes(, 0)");
	rnd_stream(&w, 8);
	futils_random(c, 8);
	rnd_stream(&w, 8);
	CHECK(futils_random_bytes(b, 8) == 0 && !memcmp(b, c, 8),
	      "random_bytes");
	mc_count_transitions(4800);
}

/* over fresh generators, without any control of the stream */
static void s_seeds(void *arg)
{
	struct job *j = arg;
	static const uint64_t ms[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 63, 64,
		100, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 0x7fff,
		0x8000, 0xfffe, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000,
		0x1000001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
		0x100000000ull, 0x100000001ull, 0x1ffffffffull, 0xffffffffffull,
		0x10000000000ull, 0xffffffffffffull, 0x1000000000000ull,
		0xffffffffffffffull, 0x100000000000000ull,
		0x7fffffffffffffffull, 0x8000000000000000ull,
		0xfffffffffffffffeull, ~0ull };
	unsigned i, s, k;
	for (i = 0; i < sizeof(ms) / sizeof(ms[0]); i++) {
		uint64_t m = ms[i], v, or = 0, seen[4] = { 0 };
		if (j->fn < 64 && m >> j->fn)
			continue;
		for (s = 0; s < 24; s++) {
			rnd_fresh(1000 + s);
			for (k = 0; k < 400; k++) {
				mc_case(j->fn, m, s, k);
				v = call(j->fn, m);
				CHECK(v <= m, "random%d_maximum(%#lx) is %#lx",
				      j->fn, m, v);
				or |= v;
				if (m < 256)
					seen[v / 64] |= 1ull << v % 64;
				mc_n_nontrivial++;
			}
		}
		/* 9600 draws: a value or bit missing by chance has a
		 * probability below 2^-54, and the seeds are fixed */
		if (m < 256)
			for (v = 0; v <= m; v++)
				CHECK(seen[v / 64] >> v % 64 & 1, "random%d_"
				      "maximum(%#lx) never gives %#lx", j->fn,
				      m, v);
		if (m)
			for (v = 0; v < 64u - __builtin_clzll(m); v++)
				CHECK((m & (m - 1)) == 0 ? 1 : or >> v & 1 ||
				      v == 63u - __builtin_clzll(m), "random%d_maximum"
				      "(%#lx) never sets bit %lu", j->fn, m, v);
	}
	mc_count_transitions(mc_n_nontrivial);
	rnd_fresh(1);
}

/* runs of rejected words of every length, then an accepted one: the number is
 * the one of the accepted word alone */
static void s_runs(void *arg)
{
	static const uint64_t m[] = { 2, 4, 5, 6, 8, 9, 16, 17, 64, 100, 127,
		128, 129, 200, 254, 256, 257, 300, 1000, 32767, 32768, 32769,
		65534, 65536, 65537, 100000, 0x800000, 0xfffffe, 0x1000000,
		0x1000001, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe,
		0x100000000, 0x123456789, 0xfffffffffe, 0x10000000000,
		0xfffffffffffe, 0x1000000000000, 0x100000000000000,
		0xfffffffffffffe, 0x8000000000000000, 0xfffffffffffffffe };
	const struct job *j = arg;
	static uint8_t w[RND_LEARN];
	uint64_t a, b, v, acc[4], want[4], rej[4];
	int k, i, W, u, na, nr, q, n;
	for (k = 0; k < (int)(sizeof(m) / sizeof(m[0])); k++) {
		if (j->fn < 64 && m[k] >> j->fn)
			continue;
		W = width(j->fn, m[k]);
		if (W < 1 || W > 8)
			continue;
		/* words which are accepted, and rejected */
		na = nr = 0;
		for (i = 0; i < 4000 && (na < 4 || nr < 4); i++) {
			a = i == 0 ? 0 : i == 1 ? ~0ull : rnd_sm(i);
			v = run(j->fn, m[k], a, W, &u);
			if (u == W && na < 4) {
				acc[na] = a;
				want[na++] = v;
			} else if (u != W && nr < 4) {
				rej[nr++] = a;
			}
		}
		if (na < 4 || !nr)
			continue;
		for (n = 1; (n + 1) * W < RND_LEARN - 4; n++)
			for (q = 0; q < 4; q++) {
				for (i = 0; i < n; i++) {
					b = rej[q == 3 ? i % nr : q % nr];
					memcpy(w + i * W, &b, W);
				}
				memcpy(w + n * W, &acc[q], W);
				mc_case(j->fn, m[k], n, q);
				rnd_stream(w, (n + 1) * W);
				v = call(j->fn, m[k]);
				u = rnd_used();
				CHECK(v == want[q] && u == (n + 1) * W,
				      "random%d_maximum(%#lx): after %d "
				      "rejected words, %#lx gives %#lx and not "
				      "%#lx", j->fn, m[k], n, acc[q], v,
				      want[q]);
				mc_n_nontrivial++;
			}
	}
	mc_count_transitions(mc_n_nontrivial);
	rnd_fresh(1);
}

int main(int argc, char **argv)
{
	static const int fns[] = { 8, 16, 32, 64 };
	static const int un[] = { 108, 116, 132, 164, 153, 124 };
	static const uint64_t m24[] = { 0x10000, 0x10001, 0x1ffff, 0x20000, 0x2aaaa,
		0x7fffff, 0x800000, 0x800001, 0xaaaaaa, 0xc00000, 0xfffffe,
		0xffffff };
	static struct job jb[600];
	int n = 0, i, k;
	char name[60];
	mc_init(argc, argv);
	mc_set_reset(rnd_reset);
	cnt = malloc((1u << 24) * sizeof(*cnt) + 64);
	rnd_setup();
#define JOB(sc, nm, ...) do { jb[n] = (struct job){ __VA_ARGS__ }; \
	snprintf(name, sizeof(name), "%s %d %#lx", nm, jb[n].fn, jb[n].lo); \
	mc_explore(name, sc, &jb[n]); n++; } while (0)
	for (i = 0; i < 4; i++)
		JOB(s_seeds, "seeds", fns[i], 0, 0, 0);
	if (!rnd_next) {
		mc_note_cap("the upcoming bytes of the generator were not "
			    "found in its memory: fixed seeds only");
		return mc_end();
	}
	for (i = 0; i < 4; i++) {
		JOB(s_runs, "runs", fns[i], 0, 0, 0);
		JOB(s_count, "count8", fns[i], 0, 255, 1);
		if (fns[i] == 8)
			continue;
		JOB(s_wide, "wide", fns[i], 9, fns[i] < 32 ? 16 : 32);
		if (fns[i] == 64)
			for (k = 33; k <= 64; k += 4)
				JOB(s_wide, "wide", 64, k, k + 3);
		for (k = 0; k < 65536; k += 8192)
			JOB(s_all16, "all16", fns[i], k, k + 8191);
		for (k = 9; k <= 16; k++)
			JOB(s_count, "count16", fns[i], (1u << (k - 1)) - 2,
			    (1u << (k - 1)) + 2, 1);
		JOB(s_count, "count16 top", fns[i], 0xfffc, 0xffff, 1);
		for (k = 0; k < 8; k++)
			JOB(s_count, "count16 step", fns[i], 256 + k * 8192,
			    (k + 1) * 8192 - 1, mc_thorough ? 1 : 61);
		if (fns[i] > 16)
			for (k = 0; k < 12; k++)
				if (mc_thorough || k % 2 == (fns[i] == 64))
					JOB(s_count, "count24", fns[i], m24[k],
					    m24[k], 1);
	}
	for (i = 0; i < 6; i++) {
		snprintf(name, sizeof(name), "unbounded %d", un[i]);
		mc_explore(name, s_unbounded, (void *)&un[i]);
	}
	mc_explore("buffers", s_buffer, NULL);
	mc_explore("pointers", s_wrap, NULL);
	return mc_end();
}
