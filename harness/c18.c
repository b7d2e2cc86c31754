/* C18: entropy of the operating system, under every answer of the kernel */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include "rnd.h"
#include <errno.h>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>

static int low;			/* the lowest descriptors are free */
static int wide, budget, all_amounts, supplied, flip, recoverable, opens;
static int unavailable;		/* the system call said more than EINTR */
static char path[64];
static uint8_t value(int i) { return 1 + i % 251; }

static ssize_t supply(void *buf, size_t n)
{
	uint8_t *p = buf;
	size_t i;
	for (i = 0; i < n; i++) {
		p[i] = value(supplied);
		if (supplied == flip)
			p[i] ^= 0x80;
		supplied++;
	}
	return n;
}

/* 0: full; else amount or -errno */
static ssize_t answer(void *buf, size_t n, int dev)
{
	/* what the kernel can say: errors which leave nothing to hope for
	 * come after those which the library has to overcome */
	static const int rnd_err[] = { EINTR, ENOSYS, EAGAIN, EIO, EPERM, 0 };
	static const int dev_err[] = { EINTR, EIO, EAGAIN, 0 };
	static const int rnd_wide[] = { EINTR, ENOSYS, EAGAIN, EIO, EPERM,
		EFAULT, EINVAL, EOPNOTSUPP, EACCES, ENOMEM, EBADF, ENODEV,
		EBUSY, ETIMEDOUT, 0 };
	static const int dev_wide[] = { EINTR, EIO, EAGAIN, EBADF, EINVAL,
		EISDIR, ENXIO, ENODEV, EFAULT, ENOSYS, EPERM, ENOMEM, EACCES,
		EBUSY, ETIMEDOUT, EPIPE, 0 };
	const int *errs = wide ? dev ? dev_wide : rnd_wide :
		dev ? dev_err : rnd_err;
	long am[40];
	int k = 0, i, c;
	void *bad;
	CHECK(n > 0, "%s of no byte", dev ? "read" : "getrandom");
	bad = __asan_region_is_poisoned(buf, n);
	CHECK(!bad, "%s writes out of the buffer", dev ? "read" : "getrandom");
	if (all_amounts && n <= 32) {
		c = mc_choose(n, "amount");	/* free of charge */
		n -= c;
	}
	if (!budget)
		return supply(buf, n);
	am[k++] = n;
	if (!all_amounts) {
		if (n > 1)
			am[k++] = 1;
		if (n > 3)
			am[k++] = n / 2;
		if (n > 2)
			am[k++] = n - 1;
	}
	am[k++] = 0;
	for (i = 0; errs[i]; i++)
		am[k++] = -errs[i];
	c = mc_choose(k, dev ? "read" : "getrandom");
	if (!c)
		return supply(buf, n);
	budget--;
	mc_log("%s of %zu: %s%ld", dev ? "read" : "getrandom", n,
	       am[c] < 0 ? "error " : "", labs(am[c]));
	if (am[c] > 0)
		return supply(buf, am[c]);
	if (!dev && am[c] != -EINTR)
		unavailable = 1;
	if (!(am[c] == -EINTR || (!dev && (am[c] == -ENOSYS ||
					   am[c] == -EAGAIN))))
		recoverable = 0;
	if (!am[c])
		return 0;
	errno = -am[c];
	return -1;
}

static ssize_t h_getrandom(void *buf, size_t n, unsigned flags)
{
	(void)flags;
	return answer(buf, n, 0);
}
static ssize_t h_read(int fd, void *buf, size_t n)
{
	(void)fd;
	return answer(buf, n, 1);
}
static int h_open(const char *p, int flags, int mode)
{
	static const int errs[] = { ENOENT, EMFILE, EACCES, ENFILE, ENXIO,
		ENODEV, EPERM, ENOMEM, EIO, EINVAL, ELOOP, ENOTDIR, ENOSYS,
		EBUSY, EROFS };
	int c, fd;
	(void)mode;
	opens++;
	snprintf(path, sizeof(path), "%s", p);
	CHECK((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT |
	      O_TRUNC)), "%s opened with %#x", p, flags);
	if (strcmp(p, "/dev/random") && strcmp(p, "/dev/urandom")) {
		errno = ENOENT;
		return -1;
	}
	if (budget) {
		c = mc_choose(wide ? 16 : 4, "open");
		if (c) {
			budget--;
			recoverable = 0;
			mc_log("open: error %d", errs[c - 1]);
			errno = errs[c - 1];
			return -1;
		}
	}
	fd = vk_fd_alloc(VKT_OTHER);
	if (fd < 0)
		mc_broken("descriptors");
	return fd;
}

static void begin(int b, int all)
{
	budget = b;
	all_amounts = all;
	supplied = 0;
	flip = -1;
	recoverable = 1;
	unavailable = 0;
	opens = 0;
	vk_fd_base = low ? 0 : 700;
	rnd_load(&rnd_init0);
	vk_getrandom_hook = h_getrandom;
	vk_open_hook = h_open;
	vk_read_hook = h_read;
}
static void end(const char *what)
{
	CHECK(vk_fd_open_count() == 0, "%s leaves a descriptor open", what);
	CHECK(vk_mem_live == 0, "%s leaks memory", what);
}

struct arg { int len, budget, all, wide, low; };

static void s_strong(void *arg)
{
	const struct arg *a = arg;
	uint8_t *b = malloc(a->len);
	int r, i;
	static uint8_t seen[256];
	memset(b, 0, a->len);
	wide = a->wide;
	low = a->low;
	begin(a->budget, a->all);
	r = futils_random_strong(b, a->len);
	CHECK(r <= 0, "random_strong: %d", r);
	CHECK(r == 0 || (!recoverable && unavailable), "random_strong: %d, whereas only "
	      "interruptions, short answers and an unavailable system call "
	      "happened", r);
	end("random_strong");
	memset(seen, 0, sizeof(seen));
	for (i = 0; r == 0 && i < a->len; i++) {
		CHECK(b[i], "random_strong succeeds without byte %d of %d "
		      "(%d supplied)", i, a->len, supplied);
		CHECK(a->len > 250 || supplied > 250 || !seen[b[i]]++,
		      "random_strong uses a byte twice (%d)", i);
	}
	CHECK(r || supplied >= a->len, "random_strong succeeds with %d bytes "
	      "of %d", supplied, a->len);
	mc_outcome(mc_mix(r, supplied * 8 + opens));
	free(b);
}

/* seeding and reseeding: aborts, fails, or a full seed */
static uint8_t healthy[16];
static int seed_size;
static int what_;
static int draw(uint8_t *o)
{
	jmp_buf jb;
	volatile int r = 0;
	vk_abort_jb = &jb;
	if (setjmp(jb)) {
		vk_abort_jb = NULL;
		return -2;
	}
	if (what_)
		r = futils_random_reseed();
	if (!r) {
		if (what_ && budget) {
			/* whatever remains is for the reseed */
			budget = 0;
			all_amounts = 0;
		}
		futils_random(o, 16);
	}
	vk_abort_jb = NULL;
	return r;
}

static void s_seed(void *arg)
{
	const struct arg *a = arg;
	uint8_t o[16], o2[16];
	int r, mark = mc_mark(), rec, i, n, k;
	what_ = a->len;
	wide = a->wide;
	low = a->low;
	begin(a->budget, a->all);
	r = draw(o);
	rec = recoverable || !unavailable;
	end(what_ ? "reseed" : "seeding");
	mc_outcome(mc_mix(r, supplied * 8 + opens));
	CHECK(r == 0 || !rec, "%s fails, whereas only interruptions, short "
	      "answers and an unavailable system call happened",
	      what_ ? "reseed" : "seeding");
	CHECK(r <= 0, "reseed: %d", r);
	if (r)
		return;
	if (!memcmp(o, healthy, 16))
		return;
	/* not the seed of an undisturbed run: count the bytes which matter */
	n = supplied;
	for (i = 0, k = 0; i < n; i++) {
		begin(a->budget, a->all);
		flip = i;
		mc_echo_begin(mark);
		draw(o2);
		mc_echo_end();
		k += memcmp(o, o2, 16) != 0;
	}
	CHECK(k >= seed_size, "%s goes on with %d bytes of %d",
	      what_ ? "reseed" : "seeding", k, seed_size);
}

static void s_args(void *arg)
{
	uint8_t b = 7;
	(void)arg;
	begin(0, 0);
	CHECK(futils_random_strong(NULL, 5) == -EINVAL, "strong(NULL)");
	CHECK(futils_random_strong(&b, 0) == -EINVAL && b == 7,
	      "strong(, 0)");
	CHECK(futils_random_strong(NULL, 0) == -EINVAL, "strong(NULL, 0)");
	CHECK(supplied == 0 && opens == 0, "entropy used for nothing");
	end("refusal");
}

/* long runs: many interruptions in a row, many short answers, large amounts;
 * the device alone, or the system call alone */
struct lng { size_t len, cap; long intr; int dev, every; };
static const struct lng *lg;
static long calls;
static uint64_t given;
static uint8_t lvalue(uint64_t i) { return 1 + i % 251; }
static ssize_t l_supply(void *buf, size_t n)
{
	uint8_t *p = buf;
	size_t i;
	CHECK(n > 0, "asked for no byte");
	CHECK(!__asan_region_is_poisoned(buf, n), "out of the buffer");
	mc_n_cases++;
	if (lg->every ? calls++ % (lg->intr + 1) != lg->intr :
	    calls++ < lg->intr) {
		errno = EINTR;
		return -1;
	}
	if (n > lg->cap)
		n = lg->cap;
	for (i = 0; i < n; i++)
		p[i] = lvalue(given++);
	return n;
}
static ssize_t l_getrandom(void *buf, size_t n, unsigned flags)
{
	(void)flags;
	if (lg->dev) {
		errno = ENOSYS;
		return -1;
	}
	return l_supply(buf, n);
}
static ssize_t l_read(int fd, void *buf, size_t n)
{
	(void)fd;
	return l_supply(buf, n);
}
static void s_long(void *arg)
{
	uint8_t *b, c[64];
	size_t i;
	int r;
	lg = arg;
	begin(0, 0);
	vk_getrandom_hook = l_getrandom;
	vk_read_hook = l_read;
	calls = 0;
	given = 0;
	if (!lg->len) {
		r = futils_random_reseed();
		CHECK(r == 0, "reseed: %d after %ld calls", r, calls);
		futils_random(c, 16);
		CHECK(!memcmp(c, healthy, 16), "the reseed is not that of an "
		      "undisturbed run");
		end("reseed");
		return;
	}
	b = malloc(lg->len);
	memset(b, 0, lg->len);
	r = futils_random_strong(b, lg->len);
	CHECK(r == 0, "random_strong: %d after %ld calls", r, calls);
	end("random_strong");
	for (i = 0; i < lg->len; i++) {
		if (!(i & 0xfffff))
			mc_n_cases++;
		CHECK(b[i] == lvalue(i), "byte %zu of %zu is not the one "
		      "supplied", i, lg->len);
	}
	free(b);
	mc_n_nontrivial++;
}

static void reset(void) { vk_reset(); }

int main(int argc, char **argv)
{
	static struct arg as[100];
	static const int lens[] = { 1, 2, 3, 4, 5, 44, 64, 250, 255, 256, 257,
		300, 1000, 70000 };
	static const struct lng lg_[] = {
		/* bytes, at once, interruptions, before each answer */
		{ 0, 64, 1000, 0, 0 }, { 0, 64, 100000, 0, 0 },
		{ 0, 1, 300, 0, 1 },
		{ 16, 64, 7, 0, 0 }, { 16, 64, 300, 0, 0 },
		{ 16, 64, 70000, 0, 0 }, { 16, 1, 300, 0, 1 },
		{ 300, 1, 0, 0, 0 }, { 300, 1, 1, 0, 1 },
		{ 70000, 1, 0, 0, 0 }, { 70000, 255, 1, 0, 1 },
		{ 70000, 256, 0, 0, 0 }, { 200000, 65535, 0, 0, 0 },
		{ 200000, 65536, 0, 0, 0 }, { 200000, 512, 3, 0, 1 },
		{ 20000000, 512, 0, 0, 0 }, { 70000000, 33554431, 0, 0, 0 },
		{ 100000000, 0x7ffff000, 0, 0, 0 },
		{ 2200000000u, 0x7ffff000, 0, 0, 0 },
		{ 4294967295u, 0x7ffff000, 0, 0, 0 },
		{ 4294967296u, 0x7ffff000, 0, 0, 0 },
		{ 4294967296u + 5, 33554431, 0, 0, 0 },
		{ 4294967296u + 70000, 0x7ffff000, 0, 0, 0 },
	};
	int n = 0, i, k;
	char name[100];
	mc_init(argc, argv);
	rnd_setup();
	mc_set_reset(reset);
	vk_reset();
	begin(0, 0);
	futils_random(healthy, 16);
	seed_size = supplied;
	mc_explore("arguments", s_args, NULL);
	for (i = 0; i < 14; i++) {
		as[n] = (struct arg){ lens[i], mc_thorough ? 6 : 5, 0 };
		snprintf(name, sizeof(name), "strong %d", lens[i]);
		mc_explore(name, s_strong, &as[n++]);
		as[n] = (struct arg){ lens[i], mc_thorough ? 4 : 3, 0, 1 };
		strcat(name, ", all errors");
		mc_explore(name, s_strong, &as[n++]);
	}
	for (i = 1; i <= (mc_thorough ? 9 : 7); i++) {
		as[n] = (struct arg){ i, i > 4 ? 3 : 4, 1 };
		snprintf(name, sizeof(name), "strong %d, all amounts", i);
		mc_explore(name, s_strong, &as[n++]);
	}
	for (k = 0; k < 2; k++) {
		as[n] = (struct arg){ k, mc_thorough ? 6 : 5, 0 };
		mc_explore(k ? "reseed" : "seed", s_seed, &as[n++]);
		as[n] = (struct arg){ k, mc_thorough ? 4 : 3, 0, 1 };
		mc_explore(k ? "reseed, all errors" : "seed, all errors",
			   s_seed, &as[n++]);
	}
	for (i = 0; i < 14; i += 5) {
		as[n] = (struct arg){ lens[i], mc_thorough ? 4 : 3, 0, 0, 1 };
		snprintf(name, sizeof(name), "strong %d, descriptor 0", lens[i]);
		mc_explore(name, s_strong, &as[n++]);
	}
	for (k = 0; k < 2; k++) {
		as[n] = (struct arg){ k, mc_thorough ? 4 : 3, 0, 0, 1 };
		mc_explore(k ? "reseed, descriptor 0" : "seed, descriptor 0",
			   s_seed, &as[n++]);
	}
	for (k = 0; k < 2; k++)
		for (i = 0; i < (int)(sizeof(lg_) / sizeof(*lg_)); i++) {
			static struct lng lv[2][40];
			if (lg_[i].len > 1u << 31 && !mc_thorough)
				continue;
			lv[k][i] = lg_[i];
			lv[k][i].dev = k;
			snprintf(name, sizeof(name), "%s: %zu, at most %zu, "
				 "%ld interruptions%s", k ? "device" : "call",
				 lg_[i].len, lg_[i].cap, lg_[i].intr,
				 lg_[i].every ? " each" : "");
			mc_explore(name, s_long, &lv[k][i]);
		}
	return mc_end();
}
