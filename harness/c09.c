/* C09: decoding any bytes is safe and refuses malformed encodings */
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <futils/varint.h>

enum { U16, I16, U32, I32, U64, I64 };
static const int maxlen[] = { 3, 3, 5, 5, 10, 10 };
static const int bits[] = { 16, 16, 32, 32, 64, 64 };
static uint8_t *ex[16];		/* exact buffers */

/* decodes into exactly sized heap cells */
static int dec(int t, const uint8_t *s, size_t n, uint64_t *v, size_t *l,
	       uint8_t fill)
{
	static uint8_t *cell[9];
	static size_t *len;
	int w = bits[t] / 8, r;
	if (!len) {
		len = malloc(sizeof(*len));
		cell[2] = malloc(2);
		cell[4] = malloc(4);
		cell[8] = malloc(8);
	}
	memset(cell[w], fill, w);
	memset(len, fill, sizeof(*len));
	switch (t) {
	case U16: r = futils_varint_read_u16(s, n, (void *)cell[2], len); break;
	case I16: r = futils_varint_read_i16(s, n, (void *)cell[2], len); break;
	case U32: r = futils_varint_read_u32(s, n, (void *)cell[4], len); break;
	case I32: r = futils_varint_read_i32(s, n, (void *)cell[4], len); break;
	case U64: r = futils_varint_read_u64(s, n, (void *)cell[8], len); break;
	default: r = futils_varint_read_i64(s, n, (void *)cell[8], len);
	}
	mc_count_transitions(1);
	*v = 0;
	memcpy(v, cell[w], w);
	*l = *len;
	return r;
}

/* reference */
static int ref(int t, const uint8_t *s, size_t n, uint64_t *v, size_t *l)
{
	unsigned __int128 z = 0;
	size_t i;
	for (i = 0; i < n && (int)i < maxlen[t]; i++) {
		z |= (unsigned __int128)(s[i] & 127) << (7 * i);
		if (!(s[i] & 128))
			break;
	}
	if (i == n || (int)i == maxlen[t])
		return -1;
	if (z >> bits[t])
		return -1;
	*l = i + 1;
	*v = (uint64_t)z;
	if (t & 1)
		*v = (z & 1) ? ~(uint64_t)(z >> 1) : (uint64_t)(z >> 1);
	if (bits[t] < 64)
		*v &= (1ull << bits[t]) - 1;
	return 0;
}

static void one(int t, const uint8_t *s, size_t n)
{
	uint64_t v = 0, gv, gv2;
	size_t l = 0, gl, gl2;
	int r, e, e2;
	uint64_t img = 0;
	memcpy(&img, s, n < 8 ? n : 8);
	mc_case(t, n, img, n > 8 ? s[8] | s[n - 1] << 8 : 0);
	memcpy(ex[n], s, n);
	e = ref(t, s, n, &v, &l);
	r = dec(t, ex[n], n, &gv, &gl, 0x11);
	if (e < 0) {
		CHECK(r < 0, "type %d: malformed %zu bytes %02x %02x %02x.. "
		      "accepted", t, n, s[0], n > 1 ? s[1] : 0,
		      n > 2 ? s[2] : 0);
		CHECK(!memcmp(ex[n], s, n), "source modified");
		return;
	}
	mc_n_nontrivial++;
	CHECK(r == 0 && gv == v && gl == l, "type %d: %zu bytes %02x %02x "
	      "%02x..: ret %d value %#llx length %zu, not %#llx length %zu",
	      t, n, s[0], n > 1 ? s[1] : 0, n > 2 ? s[2] : 0, r,
	      (unsigned long long)gv, gl, (unsigned long long)v, l);
	/* nothing after the encoding matters */
	if (n > l) {
		size_t i;
		for (i = l; i < n; i++)
			ex[n][i] ^= 0xff;
		e2 = dec(t, ex[n], n, &gv2, &gl2, 0x22);
		CHECK(e2 == 0 && gv2 == gv && gl2 == gl, "type %d: the result "
		      "depends on the bytes after the encoding", t);
	}
}

static void all3(void *arg)
{
	int part = (int)(intptr_t)arg, t;
	uint32_t v;
	for (v = (uint32_t)part << 20; v < (uint32_t)(part + 1) << 20; v++) {
		uint8_t b[3] = { (uint8_t)(v >> 16), (uint8_t)(v >> 8),
			(uint8_t)v };
		for (t = 0; t < 2; t++)
			one(t, b, 3);
	}
}

static void all_short(void *arg)
{
	int t = (int)(intptr_t)arg;
	uint32_t v;
	uint8_t b[2];
	for (v = 0; v < 65536; v++) {
		b[0] = (uint8_t)(v >> 8);
		b[1] = (uint8_t)v;
		one(t, b, 2);
		if (v < 256) {
			b[0] = (uint8_t)v;
			one(t, b, 1);
		}
	}
	{
		uint64_t gv;
		size_t gl;
		CHECK(dec(t, ex[0], 0, &gv, &gl, 1) < 0, "empty source");
		CHECK(dec(t, NULL, 0, &gv, &gl, 1) < 0, "null source");
		CHECK(dec(t, NULL, 5, &gv, &gl, 1) < 0, "null source");
	}
}

static const uint8_t alpha[] = { 0x80, 0x00, 0xff, 0x01, 0x7f, 0x03, 0x04,
	0x0f, 0x10, 0x81, 0x40, 0x02 };
#define NA (int)sizeof(alpha)

static void strings(void *arg)
{
	int t = (int)(intptr_t)arg & 7, part = (int)(intptr_t)arg >> 3;
	int n, i, idx[12];
	uint8_t b[12];
	for (n = 3; n <= maxlen[t] + 1; n++) {
		/* the number of letters used shrinks with the length */
		int k = n <= 4 ? NA : n <= 6 ? (mc_thorough ? 10 : 7) :
			mc_thorough ? 4 : 3;
		memset(idx, 0, sizeof(idx));
		idx[0] = part % k;
		if (part >= k)
			continue;
		for (;;) {
			for (i = 0; i < n; i++)
				b[i] = alpha[idx[i]];
			one(t, b, n);
			if (n > 6) {
				/* last byte in full */
				int z;
				for (z = NA - 1; z >= k; z--) {
					b[n - 1] = alpha[z];
					one(t, b, n);
				}
			}
			for (i = n - 1; i > 0; i--) {
				if (++idx[i] < k)
					break;
				idx[i] = 0;
			}
			if (!i)
				break;
		}
	}
}

/* long runs of continuation bytes, every last byte, every length */
static void tails(void *arg)
{
	int t = (int)(intptr_t)arg, n, i, j, z;
	uint8_t b[14];
	static const uint8_t fill[] = { 0x80, 0xff, 0x81, 0xc0 };
	for (n = 1; n <= 14; n++)
		for (z = 0; z < 4; z++)
			for (i = 0; i < n; i++)
				for (j = 0; j < 256; j++) {
					memset(b, fill[z], sizeof(b));
					b[i] = (uint8_t)j;
					one(t, b, n);
				}
}

/* buffers of more than 2^16, 2^31 and 2^32 bytes */
static const uint64_t big[] = { 127, 128, 129, 255, 256, 257, 32767, 32768,
	65535, 65536, 65537, 65538, 0x1000000, 0x7fffffff, 0x80000000,
	0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x100000002,
	0x10000000a };
#define NBIG (sizeof(big) / sizeof(big[0]))

/* a buffer which really is that large */
static uint8_t *large(void)
{
	static uint8_t *p;
	if (!p) {
		p = mmap(NULL, 0x100002000, PROT_READ | PROT_WRITE, MAP_PRIVATE |
			 MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			mc_broken("no address space");
	}
	return p;
}

static void s_large(void *arg)
{
	static const uint8_t fill[] = { 0, 0x80, 0xff, 0x81 };
	static const uint8_t last[] = { 0, 1, 3, 4, 15, 16, 0x7f };
	int t = (int)(intptr_t)arg, n, f, z, e, r;
	uint8_t *p = large();
	uint64_t v, gv;
	size_t i, l, gl;
	for (i = 0; i < NBIG; i++)
		for (n = 1; n <= 12; n++)
			for (f = 0; f < 4; f++)
				for (z = 0; z < 7; z++) {
					memset(p, fill[f], n);
					p[n - 1] = last[z];
					memset(p + n, z & 1 ? 0x80 : 0, 12);
					mc_case(t, big[i], n << 8 | f, z);
					e = ref(t, p, 24, &v, &l);
					r = dec(t, p, big[i], &gv, &gl, 0x33);
					if (e < 0) {
						CHECK(r < 0, "type %d: a "
						      "malformed encoding in "
						      "%#llx bytes is accepted",
						      t, (long long)big[i]);
						continue;
					}
					CHECK(!r && gv == v && gl == l,
					      "type %d: an encoding of %zu in "
					      "%#llx bytes: ret %d value %#llx "
					      "length %zu, not %#llx", t, l,
					      (long long)big[i], r,
					      (long long)gv, gl, (long long)v);
				}
}

/* pairs of decodings, of any types, well-formed or not, from any alignment:
 * the first, the second, the first again */
static const struct { int n; uint8_t b[12]; } ps[] = {
	{ 0, { 0 } }, { 1, { 0 } }, { 1, { 1 } }, { 1, { 0x7f } },
	{ 1, { 0x80 } }, { 1, { 0xff } }, { 2, { 0x80, 0 } },
	{ 2, { 0x80, 1 } }, { 2, { 0xff, 0x7f } }, { 2, { 0xff, 0xff } },
	{ 3, { 0xff, 0xff, 3 } }, { 3, { 0xff, 0xff, 4 } },
	{ 3, { 0x80, 0x80, 0x80 } }, { 3, { 5, 0xff, 0xff } },
	{ 4, { 0x80, 0x80, 0x80, 1 } }, { 4, { 0x80, 0x80, 0, 9 } },
	{ 5, { 0xff, 0xff, 0xff, 0xff, 15 } },
	{ 5, { 0xff, 0xff, 0xff, 0xff, 16 } },
	{ 5, { 0xfe, 0xff, 0xff, 0xff, 15 } },
	{ 5, { 0x80, 0x80, 0x80, 0x80, 0x80 } },
	{ 6, { 0x80, 0x80, 0x80, 0x80, 0x80, 1 } },
	{ 9, { 1, 2, 3, 4, 5, 6, 7, 8, 9 } },
	{ 10, { 255, 255, 255, 255, 255, 255, 255, 255, 255, 1 } },
	{ 10, { 254, 255, 255, 255, 255, 255, 255, 255, 255, 1 } },
	{ 10, { 255, 255, 255, 255, 255, 255, 255, 255, 255, 2 } },
	{ 10, { 128, 128, 128, 128, 128, 128, 128, 128, 128, 128 } },
	{ 11, { 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 0 } },
	{ 12, { 128, 128, 1, 255, 255, 255, 255, 255, 255, 255, 255, 255 } },
};
#define NPS (sizeof(ps) / sizeof(ps[0]))

static void dec_pairs(void *arg)
{
	int t1 = (int)(intptr_t)arg % 6, t2 = (int)(intptr_t)arg / 6, o, k, r;
	size_t i, j, x, l[2], gl;
	uint64_t v[2], gv;
	uint8_t *b1, *b2;
	int e[2];
	for (i = 0; i < NPS; i++)
		for (j = 0; j < NPS; j++)
			for (o = 0; o < 8; o++) {
				mc_case(t1 | t2 << 8 | o << 16, i, j, 10);
				b1 = malloc(o + ps[i].n);
				b2 = malloc(7 - o + ps[j].n);
				memcpy(b1 + o, ps[i].b, ps[i].n);
				memcpy(b2 + 7 - o, ps[j].b, ps[j].n);
				e[0] = ref(t1, ps[i].b, ps[i].n, &v[0], &l[0]);
				e[1] = ref(t2, ps[j].b, ps[j].n, &v[1], &l[1]);
				for (k = 0; k < 3; k++) {
					x = k == 1;
					r = x ? dec(t2, b2 + 7 - o, ps[j].n,
						    &gv, &gl, 0x44) :
						dec(t1, b1 + o, ps[i].n, &gv,
						    &gl, 0x55);
					CHECK(e[x] < 0 ? r < 0 : !r &&
					      gv == v[x] && gl == l[x],
					      "types %d and %d, texts %zu and "
					      "%zu at %d: decoding %d gives "
					      "%d, %#llx length %zu", t1, t2,
					      i, j, o, k, r, (long long)gv,
					      gl);
				}
				free(b1);
				free(b2);
			}
}

/* thorough: every string of 3 and 4 bytes for the larger types; every string
 * of 4 continuation bytes followed by the boundary values of the fifth */
static void quick_one(int t, uint32_t img, size_t n, uint8_t fifth)
{
	uint8_t *s = ex[n];
	uint64_t v = 0, gv;
	size_t l = 0, gl;
	int r, e;
	memcpy(s, &img, n < 4 ? n : 4);
	if (n == 5)
		s[4] = fifth;
	mc_case(t, n, img, fifth);
	e = ref(t, s, n, &v, &l);
	r = dec(t, s, n, &gv, &gl, 0x11);
	CHECK(e < 0 ? r < 0 : r == 0 && gv == v && gl == l, "type %d: %zu "
	      "bytes %02x %02x %02x ..: ret %d value %#llx length %zu, not %d "
	      "%#llx length %zu", t, n, s[0], s[1], s[2], r,
	      (unsigned long long)gv, gl, e, (unsigned long long)v, l);
}

static void all4(void *arg)
{
	int t = 2 + ((int)(intptr_t)arg & 3);
	uint32_t hi = (uint32_t)(intptr_t)arg >> 2, lo;
	for (lo = 0; lo < 1u << 24; lo++)
		quick_one(t, lo | hi << 24, 4, 0);
	if (!hi)
		for (lo = 0; lo < 1u << 24; lo++)
			quick_one(t, lo, 3, 0);
	mc_n_nontrivial += 1 << 24;
}

static void all5(void *arg)
{
	static const uint8_t last[] = { 0, 1, 7, 8, 15, 16, 17, 31, 32, 64,
		127, 128, 143, 144, 255 };
	int t = 2 + ((int)(intptr_t)arg & 1);
	uint32_t hi = (uint32_t)(intptr_t)arg >> 1, lo;
	unsigned i;
	for (lo = 0; lo < 1u << 21; lo++) {
		uint32_t img = (lo & 127) | (lo >> 7 & 127) << 8 |
			(lo >> 14) << 16 | hi << 24 | 0x80808080;
		for (i = 0; i < sizeof(last); i++)
			quick_one(t, img, 5, last[i]);
	}
	mc_n_nontrivial += 1 << 21;
}

int main(int argc, char **argv)
{
	static char nm[64];
	int t, p;
	mc_init(argc, argv);
	for (p = 0; p < 16; p++)
		ex[p] = malloc(p);
	for (p = 0; p < 16; p++) {
		sprintf(nm, "all3/%d", p);
		mc_explore(nm, all3, (void *)(intptr_t)p);
	}
	for (t = 0; t < 6; t++) {
		sprintf(nm, "large/%d", t);
		mc_explore(nm, s_large, (void *)(intptr_t)t);
		sprintf(nm, "short/%d", t);
		mc_explore(nm, all_short, (void *)(intptr_t)t);
		sprintf(nm, "tails/%d", t);
		mc_explore(nm, tails, (void *)(intptr_t)t);
		for (p = 0; p < NA; p++) {
			sprintf(nm, "strings/%d/%d", t, p);
			mc_explore(nm, strings, (void *)(intptr_t)(t | p << 3));
		}
	}
	for (t = 0; t < 36; t++) {
		sprintf(nm, "pairs/%d/%d", t % 6, t / 6);
		mc_explore(nm, dec_pairs, (void *)(intptr_t)t);
	}
	for (p = 0; mc_thorough && p < 1024; p++) {
		sprintf(nm, "all4/%d", p);
		mc_explore(nm, all4, (void *)(intptr_t)p);
	}
	for (p = 0; mc_thorough && p < 256; p++) {
		sprintf(nm, "all5/%d", p);
		mc_explore(nm, all5, (void *)(intptr_t)p);
	}
	mc_sample("u16: ff ff 04 refused (overflow), 80 80 00 accepted as 0 "
		  "length 3");
	return mc_end();
}
