/* C08: varint encoding and decoding are exact inverses, canonical */
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <futils/varint.h>

enum { U16, I16, U32, I32, U64, I64 };
static const int maxlen[] = { 3, 3, 5, 5, 10, 10 };

static int enc(int t, uint8_t *d, size_t n, uint64_t v, size_t *l)
{
	mc_count_transitions(1);
	switch (t) {
	case U16: return futils_varint_write_u16(d, n, (uint16_t)v, l);
	case I16: return futils_varint_write_i16(d, n, (int16_t)v, l);
	case U32: return futils_varint_write_u32(d, n, (uint32_t)v, l);
	case I32: return futils_varint_write_i32(d, n, (int32_t)v, l);
	case U64: return futils_varint_write_u64(d, n, v, l);
	default: return futils_varint_write_i64(d, n, (int64_t)v, l);
	}
}

static int dec(int t, const uint8_t *s, size_t n, uint64_t *v, size_t *l)
{
	int r;
	mc_count_transitions(1);
	uint16_t u16 = 0xbeef;
	int16_t i16 = 0x5a5a;
	uint32_t u32 = 0xdeadbeef;
	int32_t i32 = 0x5a5a5a5a;
	int64_t i64 = 0x5a5a5a5a5a5a5a5a;
	switch (t) {
	case U16: r = futils_varint_read_u16(s, n, &u16, l); *v = u16; break;
	case I16: r = futils_varint_read_i16(s, n, &i16, l);
		*v = (uint64_t)(int64_t)i16; break;
	case U32: r = futils_varint_read_u32(s, n, &u32, l); *v = u32; break;
	case I32: r = futils_varint_read_i32(s, n, &i32, l);
		*v = (uint64_t)(int64_t)i32; break;
	case U64: *v = 0x1234567; r = futils_varint_read_u64(s, n, v, l); break;
	default: r = futils_varint_read_i64(s, n, &i64, l);
		*v = (uint64_t)i64; break;
	}
	return r;
}

/* the reference: bits of the number (zigzag for signed), 7 by 7 */
static int ref(int t, uint64_t v, uint8_t *out)
{
	unsigned __int128 z;
	int n = 0;
	if (t & 1) {
		__int128 s = (int64_t)v;
		z = s >= 0 ? 2 * s : -2 * s - 1;
	} else
		z = v;
	do {
		out[n] = (uint8_t)(z % 128);
		z /= 128;
		if (z)
			out[n] += 128;
		n++;
	} while (z);
	return n;
}

static uint8_t *wbuf[16], *rbuf[16];	/* exact sizes, for asan */

static void one(int t, uint64_t v, int deep)
{
	uint8_t exp[12];
	int n = ref(t, v, exp), i, d;
	size_t l;
	uint64_t got;
	mc_case(t, v, 0, 0);
	if (n > maxlen[t])
		mc_broken("reference too long");
	for (d = 0; d <= maxlen[t] + 2; d++) {
		int r;
		if (!deep && d != maxlen[t] && d != maxlen[t] - 1)
			continue;
		memset(wbuf[d], 0xc3, d);
		l = 77;
		r = enc(t, wbuf[d], d, v, &l);
		if (d < maxlen[t]) {
			CHECK(r < 0, "type %d: %d byte destination accepted",
			      t, d);
			continue;
		}
		CHECK(r == 0 && l == (size_t)n,
		      "type %d value %#llx: encoded ret %d length %zu, not %d",
		      t, (unsigned long long)v, r, l, n);
		CHECK(!memcmp(wbuf[d], exp, n),
		      "type %d value %#llx: wrong encoding", t,
		      (unsigned long long)v);
		for (i = n; i < d; i++)
			CHECK(wbuf[d][i] == 0xc3, "type %d value %#llx: byte "
			      "%d beyond the length %d was written", t,
			      (unsigned long long)v, i, n);
	}
	/* decode, exactly and followed by other bytes */
	memcpy(rbuf[n], exp, n);
	l = 99;
	CHECK(dec(t, rbuf[n], n, &got, &l) == 0 && got == v && l == (size_t)n,
	      "type %d value %#llx: decoded as %#llx length %zu", t,
	      (unsigned long long)v, (unsigned long long)got, l);
	memcpy(rbuf[n + 1], exp, n);
	for (i = 0; i < 256; i += deep ? 1 : 51) {
		rbuf[n + 1][n] = (uint8_t)i;
		l = 99;
		CHECK(dec(t, rbuf[n + 1], n + 1, &got, &l) == 0 && got == v &&
		      l == (size_t)n, "type %d value %#llx followed by %#x: "
		      "decoded as %#llx length %zu", t,
		      (unsigned long long)v, i, (unsigned long long)got, l);
	}
	memcpy(rbuf[14], exp, n);
	for (i = 0; i < 256; i += deep ? 85 : 255) {
		memset(rbuf[14] + n, i, 14 - n);
		CHECK(dec(t, rbuf[14], 14, &got, &l) == 0 && got == v &&
		      l == (size_t)n, "type %d value %#llx followed by bytes "
		      "%#x: decoded as %#llx length %zu", t,
		      (unsigned long long)v, i, (unsigned long long)got, l);
	}
	mc_n_nontrivial++;
}

/* narrow to the type, as the canonical 64-bit image */
static uint64_t narrow(int t, uint64_t v)
{
	switch (t) {
	case U16: return (uint16_t)v;
	case I16: return (uint64_t)(int64_t)(int16_t)v;
	case U32: return (uint32_t)v;
	case I32: return (uint64_t)(int64_t)(int32_t)v;
	}
	return v;
}

static void small(void *arg)
{
	int t = (int)(intptr_t)arg & 7, part = (int)(intptr_t)arg >> 3;
	int v;
	for (v = part * 8192; v < (part + 1) * 8192; v++)
		one(t, narrow(t, v), (v & 255) < 4 || (v & 255) > 251);
}

static void near_powers(void *arg)
{
	int t = (int)(intptr_t)arg, b, d, c;
	for (b = 0; b < 64; b++)
		for (c = 0; c < 64; c++)
			for (d = -3; d <= 3; d++) {
				uint64_t v = (1ull << b) + (uint64_t)(int64_t)d;
				uint64_t w = c < b ? v + (1ull << c) :
					c == b ? v : v - (1ull << c);
				one(t, narrow(t, w), c == b);
				one(t, narrow(t, ~w), c == b);
			}
	for (b = 0; b < 70000; b++)
		one(t, narrow(t, b), 0), one(t, narrow(t, -(int64_t)b), 0);
}

static void groups(void *arg)
{
	static const uint8_t q[4] = { 0, 0x7f, 1, 0x40 };
	int t = (int)(intptr_t)arg & 7, part = (int)(intptr_t)arg >> 3;
	int base = mc_thorough ? 4 : 3, n = maxlen[t], i;
	long k, total = 1;
	for (i = 0; i < n; i++)
		total *= base;
	for (k = part; k < total; k += 8) {
		uint64_t v = 0;
		long x = k;
		for (i = 0; i < n; i++) {
			v |= (uint64_t)q[x % base] << (7 * i);
			x /= base;
		}
		one(t, narrow(t, v), 0);
	}
}

/* thorough: every 32-bit value, 2^24 at a time, and every run of 22 bits
 * at every place of a 64-bit value */
static void fast(int t, uint64_t v)
{
	uint8_t exp[12], *w = wbuf[maxlen[t]];
	size_t l = 77;
	uint64_t z, got = 0;
	int n = 0, r;
	z = !(t & 1) ? v : (int64_t)v >= 0 ? v * 2 : ~v * 2 + 1;
	for (; z > 127; z >>= 7)
		exp[n++] = (uint8_t)(z | 128);
	exp[n++] = (uint8_t)z;
	w[n < maxlen[t] ? n : 0] = 0xc3;
	r = enc(t, w, maxlen[t], v, &l);
	CHECK(r == 0 && l == (size_t)n && !memcmp(w, exp, n) &&
	      (n == maxlen[t] || w[n] == 0xc3), "type %d value %#llx: encoded "
	      "ret %d length %zu, not %d, or wrong bytes", t,
	      (unsigned long long)v, r, l, n);
	memcpy(rbuf[n], exp, n);
	l = 99;
	r = dec(t, rbuf[n], n, &got, &l);
	CHECK(r == 0 && got == v && l == (size_t)n, "type %d value %#llx: "
	      "decoded ret %d as %#llx length %zu", t, (unsigned long long)v,
	      r, (unsigned long long)got, l);
}

static void all32(void *arg)
{
	int t = 2 + ((int)(intptr_t)arg & 1);
	uint32_t hi = (uint32_t)(intptr_t)arg >> 1, lo;
	for (lo = 0; lo < 1u << 24; lo++) {
		uint64_t v = narrow(t, hi << 24 | lo);
		if (!(lo & 0xffff))
			one(t, v, 1);
		mc_case(t, v, 0, 1);
		mc_n_nontrivial++;
		fast(t, v);
	}
}

static void runs64(void *arg)
{
	int t = 4 + ((int)(intptr_t)arg & 1), sh = (int)(intptr_t)arg >> 1;
	uint64_t a, v;
	for (a = 0; a < 1u << 22; a++) {
		v = sh > 42 ? a << sh | (a & 1 ? (1ull << sh) - 1 : 0) :
			a << sh;
		mc_case(t, v, 0, 2);
		mc_n_nontrivial++;
		fast(t, v);
		fast(t, ~v);
	}
}

static void nulls(void *arg)
{
	uint8_t b[10];
	size_t l;
	int t;
	(void)arg;
	for (t = 0; t < 6; t++) {
		CHECK(enc(t, NULL, 10, 1, &l) < 0, "null destination");
		CHECK(enc(t, b, 10, 1, NULL) < 0, "null length");
		mc_case(t, 1, 2, 3);
	}
	CHECK(futils_varint_read_u16(NULL, 3, (uint16_t *)b, &l) < 0, "null");
	CHECK(futils_varint_read_u16(b, 3, NULL, &l) < 0, "null");
	b[0] = 0;
	CHECK(futils_varint_read_u16(b, 3, (uint16_t *)(b + 2), NULL) < 0,
	      "null");
	CHECK(futils_varint_read_i16(b, 3, NULL, &l) < 0, "null");
	CHECK(futils_varint_read_u32(b, 3, NULL, &l) < 0, "null");
	CHECK(futils_varint_read_i32(b, 3, NULL, &l) < 0, "null");
	CHECK(futils_varint_read_u64(b, 3, NULL, &l) < 0, "null");
	CHECK(futils_varint_read_i64(b, 3, NULL, &l) < 0, "null");
}

/* buffers of more than 2^16, 2^31 and 2^32 bytes */
static const uint64_t big[] = { 127, 128, 129, 255, 256, 257, 32767, 32768,
	65535, 65536, 65537, 65538, 0x1000000, 0x7fffffff, 0x80000000,
	0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x100000002,
	0x10000000a };
#define NBIG (sizeof(big) / sizeof(big[0]))

/* a buffer which really is that large */
static uint8_t *large(void)
{
	static uint8_t *p;
	if (!p) {
		p = mmap(NULL, 0x100002000, PROT_READ | PROT_WRITE, MAP_PRIVATE |
			 MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			mc_broken("no address space");
	}
	return p;
}

static void s_large(void *arg)
{
	int t = (int)(intptr_t)arg, b, n, r;
	uint8_t *p = large(), want[16];
	uint64_t v, gv;
	size_t i, l;
	for (i = 0; i < NBIG; i++)
		for (b = 0; b < 128; b++) {
			v = narrow(t, b & 1 ? ~0ull << (b / 2) :
				   1ull << (b / 2));
			n = ref(t, v, want);
			mc_case(t, big[i], v, 9);
			memset(p, 0xaa, 16);
			l = 99;
			r = enc(t, p, big[i], v, &l);
			CHECK(!r && l == (size_t)n && !memcmp(p, want, n) &&
			      p[n] == 0xaa, "type %d: encoding %#llx in %#llx "
			      "bytes: ret %d length %zu", t, (long long)v,
			      (long long)big[i], r, l);
			l = 99;
			r = dec(t, p, big[i], &gv, &l);
			CHECK(!r && l == (size_t)n && gv == v, "type %d: "
			      "decoding %#llx in %#llx bytes: ret %d value "
			      "%#llx length %zu", t, (long long)v,
			      (long long)big[i], r, (long long)gv, l);
		}
}

/* streams: two values of any types, encoded one after the other from any
 * alignment, then decoded in both orders */
static const uint64_t svals[] = { 0, 1, 2, 63, 64, 127, 128, 255, 256, 8191,
	8192, 16383, 16384, 32767, 32768, 65535, 65536, 0x1fffff, 0x200000,
	0xfffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
	0x7ffffffff, 0x800000000, 0x3ffffffffff, 0x1ffffffffffff,
	0xffffffffffffff, 0x100000000000000, 0x7fffffffffffffff,
	0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe,
	0xffffffffffffffc0, 0xffffffffffffffbf, 0xffffffff80000000,
	0xffffffffffff8000 };
#define NSV (sizeof(svals) / sizeof(svals[0]))

static void streams(void *arg)
{
	int t1 = (int)(intptr_t)arg % 6, t2 = (int)(intptr_t)arg / 6, n1, n2;
	int r, o, k;
	size_t i, j, l;
	uint64_t v1, v2, g;
	uint8_t e1[12], e2[12], *m[8], *b;
	for (o = 0; o < 8; o++)
		m[o] = malloc(o + maxlen[t1] + maxlen[t2]);
	for (i = 0; i < NSV; i++) {
		v1 = narrow(t1, svals[i]);
		n1 = ref(t1, v1, e1);
		for (j = 0; j < NSV; j++) {
			v2 = narrow(t2, svals[j]);
			n2 = ref(t2, v2, e2);
			for (o = 0; o < 8; o++) {
				mc_case(t1 | t2 << 8 | o << 16, v1, v2, 10);
				b = m[o] + o;
				l = 99;
				r = enc(t1, b, maxlen[t1] + maxlen[t2], v1, &l);
				CHECK(!r && l == (size_t)n1, "type %d value "
				      "%#llx at %d: ret %d length %zu", t1,
				      (long long)v1, o, r, l);
				l = 99;
				r = enc(t2, b + n1, maxlen[t1] + maxlen[t2] -
					n1, v2, &l);
				CHECK(!r && l == (size_t)n2 &&
				      !memcmp(b, e1, n1) &&
				      !memcmp(b + n1, e2, n2), "type %d value "
				      "%#llx after type %d value %#llx at %d: "
				      "ret %d length %zu", t2, (long long)v2,
				      t1, (long long)v1, o, r, l);
				/* the first, the second, the first again */
				for (k = 0; k < 3; k++) {
					l = 99;
					r = k == 1 ? dec(t2, b + n1, n2, &g,
							 &l) :
						dec(t1, b, n1 + (k ? 0 : n2),
						    &g, &l);
					CHECK(!r && l == (size_t)(k == 1 ? n2 :
								  n1) &&
					      g == (k == 1 ? v2 : v1),
					      "types %d %d values %#llx %#llx "
					      "at %d: read %d gives %#llx "
					      "length %zu", t1, t2,
					      (long long)v1, (long long)v2, o,
					      k, (long long)g, l);
				}
			}
		}
	}
	for (o = 0; o < 8; o++)
		free(m[o]);
}

int main(int argc, char **argv)
{
	static char nm[64];
	int t, p;
	mc_init(argc, argv);
	for (p = 0; p < 16; p++) {
		wbuf[p] = malloc(p);
		rbuf[p] = malloc(p);
	}
	for (t = 0; t < 2; t++)
		for (p = 0; p < 8; p++) {
			sprintf(nm, "all16/%d/%d", t, p);
			mc_explore(nm, small, (void *)(intptr_t)(t | p << 3));
		}
	for (t = 2; t < 6; t++) {
		sprintf(nm, "powers/%d", t);
		mc_explore(nm, near_powers, (void *)(intptr_t)t);
		for (p = 0; p < 8; p++) {
			sprintf(nm, "groups/%d/%d", t, p);
			mc_explore(nm, groups, (void *)(intptr_t)(t | p << 3));
		}
	}
	for (t = 0; t < 6; t++) {
		sprintf(nm, "large/%d", t);
		mc_explore(nm, s_large, (void *)(intptr_t)t);
	}
	for (t = 0; t < 36; t++) {
		sprintf(nm, "streams/%d/%d", t % 6, t / 6);
		mc_explore(nm, streams, (void *)(intptr_t)t);
	}
	mc_explore("nulls", nulls, NULL);
	for (p = 0; mc_thorough && p < 512; p++) {
		sprintf(nm, "all32/%d", p);
		mc_explore(nm, all32, (void *)(intptr_t)p);
	}
	for (p = 0; mc_thorough && p < 128; p++) {
		sprintf(nm, "runs64/%d", p);
		mc_explore(nm, runs64, (void *)(intptr_t)p);
	}
	mc_sample("type u32 value 0x80 -> 80 01, decoded followed by each of "
		  "the 256 bytes");
	return mc_end();
}
