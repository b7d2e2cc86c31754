/* C17: the random stream. Every history is executed with several contents of
 * the operating system's entropy (universes): two bytes are the same byte of
 * the stream if and only if they are equal in all the universes, and data
 * depend on an entropy if and only if they change with it. */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include "fibers.h"
#include "rnd.h"
#include <errno.h>

#define NU 8
#define MAXOUT 1100000
static uint8_t *out[NU + 4];		/* what was handed out */
static size_t n_out;
static struct rnd_img img[NU];
static uint8_t *timg[NU][SCHED_MAX];

/* set of the bytes handed out */
#define CAP (1 << 21)
static uint64_t *set_v;
static uint32_t *set_pos, *set_epoch, epoch_;
static void set_clear(void) { epoch_++; }
static int64_t set_find(uint64_t v, int add, uint32_t pos)
{
	size_t i = mc_mix(v, 5) & (CAP - 1);
	while (set_epoch[i] == epoch_) {
		if (set_v[i] == v)
			return set_pos[i];
		i = (i + 1) & (CAP - 1);
	}
	if (add) {
		set_epoch[i] = epoch_;
		set_v[i] = v;
		set_pos[i] = pos;
	}
	return -1;
}

static uint64_t tuple(size_t pos)
{
	uint64_t v = 0;
	int u;
	for (u = 0; u < NU; u++)
		v = v << 8 | out[u][pos];
	return v;
}
#define FILL 0xa5
/* adds the bytes from..to: new, and written */
static void emitted(size_t from, size_t to)
{
	size_t i;
	for (i = from; i < to; i++) {
		uint64_t v = tuple(i);
		int64_t p;
		CHECK(v != 0x0101010101010101ull * FILL, "byte %zu of the "
		      "request is not filled", i - from);
		CHECK(v != 0x0101010101010101ull * (v & 255), "byte %zu of the "
		      "request does not depend on the entropy", i - from);
		p = set_find(v, 1, i);
		CHECK(p < 0, "byte %ld of the history is handed out again as "
		      "byte %zu", p, i);
	}
}
static void scan(uint8_t *const *m, size_t n, const char *what)
{
	size_t i;
	for (i = 0; i < n; i++) {
		uint64_t v = 0;
		int u;
		int64_t p;
		for (u = 0; u < NU; u++)
			v = v << 8 | ((volatile uint8_t *)m[u])[i];
		if (v == 0x0101010101010101ull * (v & 255))
			continue;
		p = set_find(v, 0, 0);
		CHECK(p < 0, "byte %ld of the history, handed out, is kept in "
		      "the %s", p, what);
	}
}

/* ---- requests ---- */
enum { RESEED = -1, FAILED = -2, I8 = -3, I16 = -4, I32 = -5, I64 = -6 };
static int os_fails;
static size_t op_len(int op)
{
	return op > 0 ? (size_t)op : op == I8 ? 1 : op == I16 ? 2 :
		op == I32 ? 4 : op == I64 ? 8 : 0;
}
static int do_op(int op, uint8_t *o)
{
	size_t n = op_len(op);
	int r = 0;
	if (op == RESEED)
		return futils_random_reseed();
	if (op == FAILED) {
		os_fails = 1;
		r = futils_random_reseed();
		os_fails = 0;
		return r;
	}
	memset(o, FILL, n + 64);
	if (op > 0)
		futils_random(o, n);
	else if (op == I8)
		o[0] = futils_randomr8();
	else if (op == I16) {
		uint16_t v = futils_randomr16();
		memcpy(o, &v, 2);
	} else if (op == I32) {
		uint32_t v = futils_randomr32();
		memcpy(o, &v, 4);
	} else {
		uint64_t v = futils_randomr64();
		memcpy(o, &v, 8);
	}
	for (n = 0; n < 64; n++)
		CHECK(o[op_len(op) + n] == FILL, "request of %zu bytes: byte "
		      "%zu beyond is written", op_len(op), n);
	return 0;
}

static long flip = -1, fetched;		/* bit of the entropy to flip */
static ssize_t hook(void *buf, size_t n, unsigned flags)
{
	uint8_t *p = buf;
	size_t i;
	if (os_fails) {
		errno = EIO;
		return -1;
	}
	rnd_getrandom(buf, n, flags);
	for (i = 0; i < n; i++, fetched++)
		if (flip >= 0 && flip / 8 == fetched)
			p[i] ^= 1 << flip % 8;
	return n;
}
static int no_open(const char *path, int flags, int mode)
{
	(void)path;
	(void)flags;
	(void)mode;
	errno = EMFILE;
	return -1;
}

static void fresh(int u)
{
	rnd_fresh(100 + u);
	vk_getrandom_hook = hook;
	vk_open_hook = no_open;
	os_fails = 0;
	flip = -1;
	fetched = 0;
}

/* one sequence of requests of one thread, in all the universes */
static void sequence(const int *ops, int n)
{
	static struct rnd_img at[NU][8];
	size_t pos[9];
	uint8_t *m[NU];
	int u, i, r;
	set_clear();
	for (u = 0; u < NU; u++) {
		fresh(u);
		pos[0] = 0;
		for (i = 0; i < n; i++) {
			mc_case(ops[0], n > 1 ? ops[1] : 0, n > 2 ? ops[2] : 0,
				u * 100000 + i * 10000 + (n > 3 ? ops[3] : 0));
			r = do_op(ops[i], out[u] + pos[i]);
			if (ops[i] == RESEED)
				CHECK(r == 0, "reseed: %d", r);
			else if (ops[i] == FAILED)
				CHECK(r < 0, "reseed without entropy: %d", r);
			pos[i + 1] = pos[i] + op_len(ops[i]);
			if (!at[u][i].tls)
				at[u][i] = rnd_img_new();
			rnd_save(&at[u][i]);
		}
	}
	for (i = 0; i < n; i++) {
		emitted(pos[i], pos[i + 1]);
		for (u = 0; u < NU; u++)
			m[u] = at[u][i].tls;
		scan(m, rnd_ntls, "state of the thread");
		for (u = 0; u < NU; u++)
			m[u] = at[u][i].dat;
		scan(m, rnd_ndat, "static data");
	}
	mc_n_nontrivial++;
	mc_count_transitions(n * NU);
}

static const int ops_all[] = { 1, 8, 40, 44, 100, 423, 424, 425, 467, 468, 469,
	511, 512, 513, 1025, RESEED, FAILED, I64 };
#define N_OPS (int)(sizeof(ops_all) / sizeof(ops_all[0]))

static void s_sequences(void *arg)
{
	int a[8], i, j, k, l, first = *(int *)arg;
	for (i = 0; i < N_OPS; i++) {
		a[0] = ops_all[first];
		a[1] = ops_all[i];
		for (j = 0; j < N_OPS; j++) {
			a[2] = ops_all[j];
			for (k = 0; k < N_OPS; k++) {
				a[3] = ops_all[k];
				if (!mc_thorough) {
					sequence(a, 4);
					continue;
				}
				for (l = 0; l < N_OPS; l++) {
					a[4] = ops_all[l];
					sequence(a, 5);
				}
			}
		}
	}
	mc_sample("all sequences of %d requests starting with %d",
		  mc_thorough ? 5 : 4, ops_all[first]);
}

/* from every fill level of the internal buffer */
static void s_levels(void *arg)
{
	int lo = *(int *)arg, a, i, j, s[3];
	for (a = lo; a < lo + 64; a++)
		for (i = 0; i < N_OPS; i++)
			for (j = 0; j < N_OPS; j++) {
				s[0] = a + 1;
				s[1] = ops_all[i];
				s[2] = ops_all[j];
				sequence(s, 3);
			}
	mc_sample("requests of %d to %d bytes, then all pairs", lo + 1,
		  lo + 64);
}

static void s_small(void *arg)
{
	static const int t[] = { 1, 2, 3, 4, 5, 6, 7, I8, I16, I32, I64 };
	int u, i, k, r;
	size_t p;
	(void)arg;
	/* thousands of small requests, of each kind and mixed */
	for (k = 0; k <= 11; k++) {
		set_clear();
		for (u = 0; u < NU; u++) {
			fresh(u);
			for (p = 0, i = 0; i < 3000; i++) {
				int op = k < 11 ? t[k] : t[(i * 7 + i / 11) % 11];
				mc_case(k, u, i, 0);
				r = do_op(op, out[u] + p);
				CHECK(r == 0, "request: %d", r);
				p += op_len(op);
			}
		}
		emitted(0, p);
		mc_n_nontrivial++;
	}
	mc_count_transitions(12 * 3000 * NU);
	mc_sample("3000 small requests of each kind");
}

static void s_large(void *arg)
{
	static const int t[] = { 2000, 4096, 5000, 65536, 100000, 1000000 };
	int i, a[3];
	(void)arg;
	for (i = 0; i < 6; i++) {
		a[0] = i & 1 ? 44 : 1;
		a[1] = t[i];
		a[2] = 64;
		sequence(a, 3);
	}
	mc_sample("requests of 2000 to 1000000 bytes");
}

/* every bit of the seed counts, at the first seeding and at a reseed */
static void s_bits(void *arg)
{
	static const int t[] = { 16, 64, 467, 468, 600 };
	static uint8_t ref[700], got[700];
	long n, b;
	int i, re, j;
	(void)arg;
	for (re = 0; re < 3; re++)
		for (i = 0; i < 5; i++) {
			for (b = -1; b < (b < 0 ? 1 : n); b++) {
				long start = 0;
				mc_case(re, i, b, 0);
				fresh(1);
				if (re) {
					do_op(re == 1 ? 16 : 512, got);
					CHECK(fetched > 0, "no entropy");
					start = fetched;
				}
				flip = b < 0 ? -1 : start * 8 + b;
				if (re)
					CHECK(futils_random_reseed() == 0,
					      "reseed");
				do_op(t[i], got);
				if (b < 0) {
					n = (fetched - start) * 8;
					CHECK(n >= 256, "seeded with %ld bits",
					      n);
					memcpy(ref, got, sizeof(ref));
					continue;
				}
				CHECK((fetched - start) * 8 == n, "seed size");
				/* each block of 16 bytes changes */
				for (j = 0; j + 16 <= t[i]; j += 16)
					CHECK(memcmp(ref + j, got + j, 16),
					      "bit %ld of the seed does not "
					      "change the bytes at %d of a "
					      "request of %d", b, j, t[i]);
				mc_n_nontrivial++;
			}
		}
	fresh(1);
	mc_count_transitions(mc_n_nontrivial);
	mc_sample("every bit of the seeds");
}

/* one thread: what follows a reseed depends on its entropy, whatever came
 * before */
static void s_reseed_one(void *arg)
{
	static uint8_t a[1200], b[1200];
	int i, j, k, u;
	(void)arg;
	for (i = 0; i < N_OPS; i++)
		for (j = 0; j < N_OPS; j++)
			for (k = 0; k < N_OPS; k++) {
				if (op_len(ops_all[k]) < 16)
					continue;
				for (u = 0; u < 2; u++) {
					uint8_t *o = u ? b : a;
					mc_case(i, j, k, u);
					fresh(1);
					do_op(ops_all[i], o);
					do_op(ops_all[j], o);
					rnd_seed_no = 100 + u;
					CHECK(futils_random_reseed() == 0,
					      "reseed");
					do_op(ops_all[k], o);
				}
				for (u = 0; u + 16 <= ops_all[k]; u += 16)
					CHECK(memcmp(a + u, b + u, 16),
					      "bytes at %d of a request of %d "
					      "after a reseed do not depend "
					      "on its entropy", u,
					      ops_all[k]);
				mc_n_nontrivial++;
			}
	mc_count_transitions(mc_n_nontrivial * 8);
	mc_sample("all triples of requests around a reseed");
}

/* a thread draws; another one reseeds again and again: after each of its
 * reseeds, what the first one draws depends on the entropy got since, and
 * so does what the reseeding thread and a new thread draw */
static void s_eras(void *arg)
{
	long n = *(long *)arg, k, at;
	static uint8_t (*got)[3][16], o[600];
	static struct rnd_img a, b;
	int u, i;
	if (!a.tls) {
		a = rnd_img_new();
		b = rnd_img_new();
	}
	got = calloc(n, sizeof(*got));
	for (u = 0; u < 2; u++) {
		fresh(1);
		do_op(16, o);
		do_op(500, o);
		do_op(16, o);
		rnd_save(&a);
		rnd_copy(rnd_tls, rnd_init0.tls, rnd_ntls);
		do_op(16, o);
		rnd_seed_no = 100 + u;
		for (k = 0; k < n; k++) {
			mc_case(k, u, 0, 0);
			CHECK(futils_random_reseed() == 0, "reseed");
			rnd_save(&b);
			at = fetched;
			for (i = 0; i < 3; i++) {
				/* static data stay as they are */
				if (i == 0)
					rnd_copy(rnd_tls, a.tls, rnd_ntls);
				else if (i == 1)
					rnd_copy(rnd_tls, rnd_init0.tls,
						 rnd_ntls);
				else
					rnd_load(&b);
				do_op(16, o);
				if (!u)
					memcpy(got[k][i], o, 16);
				else
					CHECK(memcmp(got[k][i], o, 16), "%s: "
					      "after reseed %ld of a thread, "
					      "what is drawn does not depend "
					      "on entropy got since",
					      i == 0 ? "another thread" :
					      i == 1 ? "a new thread" :
					      "the same thread", k + 1);
				fetched = at;
			}
			rnd_load(&b);
		}
	}
	free(got);
	mc_n_nontrivial++;
	mc_count_transitions(2 * n);
}

/* one request of n bytes: all filled, no part of it comes twice */
static void s_huge(void *arg)
{
	size_t n = *(size_t *)arg, stride, cap = 1, i;
	uint8_t *p = malloc(n + 64), *bits;
	uint64_t v, *tab;
	long run = 0;
	stride = 64;
	while (n / stride > 1 << 21)
		stride *= 2;
	while (cap < 4 * (n / stride))
		cap *= 2;
	tab = calloc(cap, sizeof(*tab));
	bits = calloc(1, 1 << 23);
	fresh(3);
	do_op(8, p);
	memset(p, FILL, n + 64);
	mc_patience = n < 1000000000 ? 4 : 100;	/* one long call */
	futils_random(p, n);
	mc_patience = 4;
	for (i = 0; i < 64; i++)
		CHECK(p[n + i] == FILL, "request of %zu bytes: byte %zu beyond "
		      "is written", n, i);
	/* fingerprints at each stride, looked for at every offset */
	for (i = 0; i + 8 <= n; i += stride) {
		size_t h;
		memcpy(&v, p + i, 8);
		for (h = mc_mix(v, 5) & (cap - 1); tab[h]; h = (h + 1) &
		     (cap - 1))
			CHECK(tab[h] != v, "request of %zu bytes: those at %zu "
			      "come twice", n, i);
		tab[h] = v;
		bits[(v & 0x3ffffff) >> 3] |= 1 << (v & 7);
	}
	for (i = 0; i + 8 <= n; i++) {
		size_t h;
		if (!(i & 0xfffff))
			mc_case(n, i, 0, 0);
		run = p[i] == FILL ? run + 1 : 0;
		CHECK(run < 12, "request of %zu bytes: not filled at %zu", n,
		      i);
		if (!(i & (stride - 1)))
			continue;
		memcpy(&v, p + i, 8);
		if (!(bits[(v & 0x3ffffff) >> 3] & 1 << (v & 7)))
			continue;
		for (h = mc_mix(v, 5) & (cap - 1); tab[h]; h = (h + 1) &
		     (cap - 1))
			CHECK(tab[h] != v, "request of %zu bytes: those at %zu "
			      "come twice", n, i);
	}
	free(bits);
	free(tab);
	free(p);
	mc_n_nontrivial++;
	mc_count_transitions(n >> 12);
}

/* ---- threads ---- */
struct prog { int n, op[3]; };
struct conf { int nt; struct prog p[3]; };
struct ev { int op, start, end, ret; size_t pos; };
static struct ev evs[3][3];
static int tick, uni;
static int n_reseeds, reseed_start[9], reseed_end[9];
static int clock_obj, n_started, n_ended, fetch_no[SCHED_MAX];
static size_t pos_of(int t, int i) { return (t * 3 + i) * 1300; }

static ssize_t thook(void *buf, size_t n, unsigned flags)
{
	uint8_t *p = buf;
	size_t i;
	uint64_t k;
	(void)flags;
	int t = sched_self();
	/* the order of two requests of different threads does not matter */
	sched_point("getrandom", NULL);
	sched_note(n_started);
	tick++;
	fetch_no[t]++;
	k = uni < NU ? uni : tick > reseed_start[uni - NU] ? 50 + uni : 0;
	for (i = 0; i < n; i++)
		p[i] = rnd_sm((k * 1000 + t * 100 + fetch_no[t]) * 1000 + i) >> 24;
	return n;
}

static void thread(void *arg)
{
	const struct prog *p = arg;
	int t = sched_self(), i;
	for (i = 0; i < p->n; i++) {
		struct ev *e = &evs[t][i];
		/* only the order of the draws and fetches with the ends and
		 * starts of the reseeds matters */
		sched_point("call", &clock_obj);
		e->op = p->op[i];
		if (e->op == RESEED) {
			sched_sync(&clock_obj);
			n_started++;
		} else
			sched_note(n_ended);
		e->start = tick++;
		e->pos = pos_of(t, i);
		if (uni == 0 && e->op == RESEED)
			reseed_start[n_reseeds++] = e->start;
		e->ret = do_op(e->op, out[uni] + e->pos);
		e->end = tick++;
		if (e->op != RESEED)
			continue;
		sched_sync(&clock_obj);
		n_ended++;
		CHECK(e->ret == 0, "reseed: %d", e->ret);
	}
}

static void world(const struct conf *c, int u)
{
	int t;
	uni = u;
	tick = 1;
	n_started = n_ended = 0;
	memset(fetch_no, 0, sizeof(fetch_no));
	if (u)
		sched_reset();
	sched_preempt_bound = -1;
	rnd_load(&rnd_init0);
	vk_getrandom_hook = thook;
	for (t = 0; t < c->nt; t++)
		sched_spawn(t == 0 ? "A" : t == 1 ? "B" : "C", thread,
			    (void *)&c->p[t]);
	sched_run();
	if (u >= NU)
		return;
	for (t = 0; t < c->nt; t++)
		memcpy(timg[u][t], sched_tls_of(t), rnd_ntls);
	rnd_save(&img[u]);
}

static void s_threads(void *arg)
{
	const struct conf *c = arg;
	int mark = mc_mark(), u, t, i, r;
	uint8_t *m[NU];
	n_reseeds = 0;
	world(c, 0);
	r = n_reseeds;
	for (u = 1; u < NU + r; u++) {
		mc_echo_begin(mark);
		world(c, u);
		mc_echo_end();
	}
	set_clear();
	for (t = 0; t < c->nt; t++)
		for (i = 0; i < c->p[t].n; i++) {
			struct ev *e = &evs[t][i];
			size_t n = op_len(e->op);
			if (!n)
				continue;
			emitted(e->pos, e->pos + n);
			for (u = 1; u < NU && n >= 16; u++)
				CHECK(memcmp(out[u] + e->pos, out[0] + e->pos,
					     16), "thread %d: request %d does "
				      "not depend on the entropy", t, i);
		}
	for (t = 0; t < c->nt; t++) {
		for (u = 0; u < NU; u++)
			m[u] = timg[u][t];
		scan(m, rnd_ntls, "state of a thread");
	}
	for (u = 0; u < NU; u++)
		m[u] = img[u].dat;
	scan(m, rnd_ndat, "static data");
	/* freshness: for each reseed over, everything later depends on the
	 * entropy got since it started */
	for (u = 0; u < r; u++) {
		int re = -1;
		for (t = 0; t < c->nt; t++)
			for (i = 0; i < c->p[t].n; i++)
				if (evs[t][i].op == RESEED &&
				    evs[t][i].start == reseed_start[u])
					re = evs[t][i].end;
		for (t = 0; t < c->nt; t++)
			for (i = 0; i < c->p[t].n; i++) {
				struct ev *e = &evs[t][i];
				if (op_len(e->op) < 16 || e->start < re)
					continue;
				CHECK(memcmp(out[NU + u] + e->pos, out[0] +
					     e->pos, 16), "thread %d: request "
				      "%d, after the end of a reseed, does not"
				      " depend on entropy got since", t, i);
			}
	}
	mc_outcome(mc_hash(evs, sizeof(evs), 1));
	mc_n_nontrivial++;
}

/* very many threads, one after another, in one process: each is seeded before
 * its first output, and from entropy of its own */
static uint8_t one_got[2][710][20];
static int one_u;
static void one_thread(void *arg)
{
	long i = (long)arg;
	long at = fetched;
	CHECK(do_op(i % 3 ? 16 : 20, one_got[one_u][i]) == 0, "request of "
	      "thread number %ld", i);
	CHECK(fetched > at, "thread number %ld draws without any entropy of "
	      "its own", i);
}
static void s_new_threads(void *arg)
{
	extern int tsan_keep_data;
	int n = mc_thorough ? 700 : 600;
	long i, j;
	(void)arg;
	for (one_u = 0; one_u < 2; one_u++) {
		sched_reset();
		rnd_load(&rnd_init0);
		fresh(one_u);
		tsan_enabled = 0;
		for (i = 0; i < n; i++) {
			mc_case(i, one_u, 0, 0);
			tsan_keep_data = 1;
			sched_reset();
			tsan_keep_data = 0;
			sched_spawn("A", one_thread, (void *)i);
			sched_run();
		}
	}
	for (i = 0; i < n; i++) {
		CHECK(memcmp(one_got[0][i], one_got[1][i], 16), "what thread "
		      "number %ld draws does not depend on the entropy", i);
		for (j = 0; j < i; j++)
			CHECK(memcmp(one_got[0][i], one_got[0][j], 16),
			      "threads number %ld and %ld draw the same bytes",
			      j, i);
	}
	mc_n_nontrivial++;
	mc_count_transitions(2 * n);
}

static void treset(void)
{
	vk_reset();
	sched_reset();
	sched_tls = rnd_tls;
	sched_tls_init = rnd_init0.tls;
	sched_tls_n = rnd_ntls;
	tsan_enabled = 1;
	memset(evs, 0, sizeof(evs));
}
static void oreset(void)
{
	vk_reset();
	sched_reset();
	sched_tls = NULL;
	tsan_enabled = 0;
	fresh(0);
}

static void text_of(const struct conf *c, char *s)
{
	int t, i;
	*s = 0;
	for (t = 0; t < c->nt; t++) {
		sprintf(s + strlen(s), "%s", t ? " |" : "");
		for (i = 0; i < c->p[t].n; i++)
			if (c->p[t].op[i] == RESEED)
				strcat(s, " reseed");
			else
				sprintf(s + strlen(s), " %d", c->p[t].op[i]);
	}
}

int main(int argc, char **argv)
{
	static int nums[40];
	static struct conf cf[4000];
	static const int all4[] = { 16, RESEED, 500, 460 };
	int n = 0, i, j, k, l, b;
	char name[200];
	mc_init(argc, argv);
	rnd_setup();
	for (i = 0; i < NU + 4; i++)
		out[i] = malloc(MAXOUT);
	set_v = malloc(CAP * sizeof(*set_v));
	set_pos = malloc(CAP * sizeof(*set_pos));
	set_epoch = calloc(CAP, sizeof(*set_epoch));
	for (i = 0; i < NU; i++) {
		img[i] = rnd_img_new();
		for (j = 0; j < SCHED_MAX; j++)
			timg[i][j] = malloc(rnd_ntls + 1);
	}
	mc_set_reset(oreset);
	for (i = 0; i < N_OPS; i++) {
		nums[i] = i;
		snprintf(name, sizeof(name), "sequences %d", ops_all[i]);
		mc_explore(name, s_sequences, &nums[i]);
	}
	for (i = 0; i < 9; i++) {
		static int lv[9];
		lv[i] = i * 64;
		snprintf(name, sizeof(name), "levels %d", lv[i]);
		mc_explore(name, s_levels, &lv[i]);
	}
	mc_explore("small", s_small, NULL);
	mc_explore("large", s_large, NULL);
	for (i = 0; i < (mc_thorough ? 2 : 1); i++) {
		static long eras[2] = { 66000, 1050000 };
		snprintf(name, sizeof(name), "reseeds %ld", eras[i]);
		mc_explore(name, s_eras, &eras[i]);
	}
	for (i = 0; i < (mc_thorough ? 6 : 4); i++) {
		static size_t hg[6] = { 5000000, 70000000, 16777216 + 64,
			65536 * 64 + 1, 1100000000, 4294967296u + 70001 };
		snprintf(name, sizeof(name), "huge %zu", hg[i]);
		mc_explore(name, s_huge, &hg[i]);
	}
	mc_explore("bits", s_bits, NULL);
	mc_explore("reseed", s_reseed_one, NULL);
	mc_set_reset(treset);
	mc_explore("new threads", s_new_threads, NULL);
	/* two threads, up to 3 requests each */
	for (l = 1; l <= 3; l++)
		for (k = 1; k <= l; k++)
			for (i = 0; i < 1 << l; i++)
				for (j = 0; j < 1 << k; j++) {
					struct conf *c = &cf[n];
					memset(c, 0, sizeof(*c));
					if (k == l && j > i)
						continue;
					c->nt = 2;
					c->p[0].n = l;
					c->p[1].n = k;
					for (b = 0; b < l; b++)
						c->p[0].op[b] = i >> b & 1 ?
							RESEED : 16;
					for (b = 0; b < k; b++)
						c->p[1].op[b] = j >> b & 1 ?
							RESEED : 16;
					n++;
				}
	/* with large requests, 2 each */
	for (i = 0; i < 16; i++)
		for (j = 0; j <= i; j++) {
			struct conf *c = &cf[n++];
			memset(c, 0, sizeof(*c));
			c->nt = 2;
			c->p[0].n = c->p[1].n = 2;
			for (b = 0; b < 2; b++) {
				c->p[0].op[b] = all4[i >> 2 * b & 3];
				c->p[1].op[b] = all4[j >> 2 * b & 3];
			}
		}
	/* three threads */
	for (i = 0; i < 64; i++) {
		struct conf *c = &cf[n];
		if (!mc_thorough && ((i & 3) < (i >> 2 & 3) ||
				     (i >> 2 & 3) < (i >> 4)))
			continue;
		n++;
		memset(c, 0, sizeof(*c));
		c->nt = 3;
		for (k = 0; k < 3; k++) {
			c->p[k].n = 2;
			for (b = 0; b < 2; b++)
				c->p[k].op[b] = i >> (2 * k + b) & 1 ? RESEED :
					16;
		}
	}
	for (i = 0; i < n; i++) {
		int nr = 0;
		for (j = 0; j < cf[i].nt; j++)
			for (k = 0; k < cf[i].p[j].n; k++)
				nr += cf[i].p[j].op[k] == RESEED;
		if (nr > 4 || (cf[i].nt == 3 && nr > 2 && !mc_thorough))
			continue;
		text_of(&cf[i], name);
		mc_explore(strdup(name), s_threads, &cf[i]);
	}
	return mc_end();
}
