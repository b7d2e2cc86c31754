/* Control of the random generator: the seed comes from a hook, and the bytes
 * it is about to hand out are found in its memory (the library's thread-local
 * and static data) by looking for what it hands out next; they can then be
 * replaced, so that raw stream words can be enumerated. */
#ifndef RND_H
#define RND_H
#include "mc.h"
#include "vk.h"
#include <link.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <futils/random.h>

extern char __start_libdata[] __attribute__((weak));
extern char __stop_libdata[] __attribute__((weak));
static uint8_t *rnd_tls, *rnd_dat;
static size_t rnd_ntls, rnd_ndat;
struct rnd_img { uint8_t *tls, *dat; };
static struct rnd_img rnd_init0;
static uint64_t rnd_seed_no, rnd_ctr;
#define RND_LEARN 400
static uint8_t *rnd_next;		/* upcoming bytes, NULL: not found */
static struct rnd_img rnd_base;		/* state where rnd_next is right */
static uint8_t rnd_rest[RND_LEARN];	/* what follows the patched word */
static int16_t rnd_pos[65536];

static uint64_t rnd_sm(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

static ssize_t rnd_getrandom(void *buf, size_t n, unsigned flags)
{
	uint8_t *p = buf;
	size_t i;
	(void)flags;
	for (i = 0; i < n; i++)
		p[i] = rnd_sm(rnd_seed_no * 1000003 + rnd_ctr++) >> 24;
	return n;
}

static int rnd_phdr(struct dl_phdr_info *info, size_t sz, void *arg)
{
	int i;
	(void)sz;
	(void)arg;
	/* the executable comes first */
	for (i = 0; i < info->dlpi_phnum; i++)
		if (info->dlpi_phdr[i].p_type == PT_TLS) {
			rnd_tls = info->dlpi_tls_data;
			rnd_ntls = info->dlpi_phdr[i].p_memsz;
		}
	return 1;
}

/* also over the gaps which AddressSanitizer watches */
static inline void rnd_copy(void *d, const void *s, size_t n)
{
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

static struct rnd_img rnd_img_new(void)
{
	struct rnd_img m = { malloc(rnd_ntls + 1), malloc(rnd_ndat + 1) };
	return m;
}

static void rnd_save(struct rnd_img *m)
{
	if (rnd_ntls)
		rnd_copy(m->tls, rnd_tls, rnd_ntls);
	if (rnd_ndat)
		rnd_copy(m->dat, rnd_dat, rnd_ndat);
}

static void rnd_load(const struct rnd_img *m)
{
	if (rnd_ntls)
		rnd_copy(rnd_tls, m->tls, rnd_ntls);
	if (rnd_ndat)
		rnd_copy(rnd_dat, m->dat, rnd_ndat);
}

/* back to the state of a fresh process, with the given entropy */
static void rnd_fresh(uint64_t seed)
{
	rnd_load(&rnd_init0);
	rnd_seed_no = seed;
	rnd_ctr = 0;
	vk_getrandom_hook = rnd_getrandom;
}

static uint8_t *rnd_scan(uint8_t *m, size_t n, const uint8_t *what, size_t w)
{
	size_t i, j;
	for (i = 0; i + w <= n; i++) {
		for (j = 0; j < w && ((volatile uint8_t *)m)[i + j] == what[j];
		     j++)
			;
		if (j == w)
			return m + i;
	}
	return NULL;
}

static void rnd_reset(void)
{
	vk_reset();
	rnd_fresh(1);
}

static void rnd_setup(void)
{
	uint8_t b[RND_LEARN], c[RND_LEARN];
	unsigned i;
	dl_iterate_phdr(rnd_phdr, NULL);
	if (__start_libdata) {
		rnd_dat = (uint8_t *)__start_libdata;
		rnd_ndat = __stop_libdata - __start_libdata;
	}
	rnd_init0 = rnd_img_new();
	rnd_base = rnd_img_new();
	rnd_save(&rnd_init0);
	vk_reset();
	for (i = 0; i < RND_LEARN; i++)	/* no pair of bytes occurs twice */
		rnd_rest[i] = (i * (i < 256 ? 167 : 101) + 13) & 255;
	memset(rnd_pos, 255, sizeof(rnd_pos));
	for (i = 0; i + 1 < RND_LEARN; i++) {
		int16_t *p = &rnd_pos[rnd_rest[i] * 256 + rnd_rest[i + 1]];
		if (*p >= 0)
			mc_broken("ambiguous pattern");
		*p = i;
	}
	/* learn */
	rnd_fresh(1);
	futils_random(b, 8);
	rnd_save(&rnd_base);
	futils_random(b, sizeof(b));
	rnd_load(&rnd_base);
	rnd_next = rnd_scan(rnd_tls, rnd_ntls, b, sizeof(b));
	if (!rnd_next)
		rnd_next = rnd_scan(rnd_dat, rnd_ndat, b, sizeof(b));
	if (!rnd_next)
		return;
	memcpy(rnd_next, rnd_rest, sizeof(rnd_rest));
	rnd_save(&rnd_base);
	memset(c, 0, sizeof(c));
	futils_random(c, sizeof(c));
	if (memcmp(c, rnd_rest, sizeof(c)))
		rnd_next = NULL;
	rnd_fresh(1);
}

/* the next bytes of the stream are w, then rnd_rest from offset n */
static inline void rnd_stream(const void *w, size_t n)
{
	rnd_load(&rnd_base);
	memcpy(rnd_next, w, n);
}
/* ... are those of rnd_rest from offset n */
static inline void rnd_shifted(size_t n)
{
	rnd_load(&rnd_base);
	memcpy(rnd_next, rnd_rest + n, sizeof(rnd_rest) - n);
}
/* how many bytes of the stream were used since rnd_stream (the last word is
 * longer than n bytes: unknown, -1) */
static inline int rnd_used(void)
{
	uint8_t b[2];
	futils_random(b, 2);
	return rnd_pos[b[0] * 256 + b[1]];
}
#endif
