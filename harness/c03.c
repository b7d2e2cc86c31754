/* C03: dynmbox capacity, refusals, blocking pushes and timeouts */
#include "dm.h"
#include <limits.h>

struct scn {
	int room;		/* room left before the blocking push */
	int n, size[3];		/* blocking pushes */
	unsigned timeout;
	int chunk;		/* prior messages of this size */
	int reads;
	int64_t usec;		/* of the clock at the start */
	int spurious, timers;
	int64_t wall[2];	/* the wall clock is set by so much */
};
static struct scn *S;
static int results[3];

static void producer(void *arg)
{
	int i, r;
	(void)arg;
	for (i = 0; i < S->n; i++) {
		int64_t t0 = vk_mono_ns, el;
		r = dm_push(S->size[i], 1, S->timeout);
		el = vk_mono_ns - t0;
		results[i] = r;
		if (S->timeout == 0)
			CHECK(r == 0, "blocking push without timeout "
			      "returned %d", r);
		else
			CHECK(r == 0 || r == -ETIMEDOUT,
			      "blocking push returned %d", r);
		if (r == -ETIMEDOUT) {
			CHECK(el >= (int64_t)S->timeout * 1000000,
			      "timeout of %u ms expired after %lld ns",
			      S->timeout, (long long)el);
			/* not unreasonably late: nothing but the timer woke
			 * it */
			CHECK(el <= (int64_t)S->timeout * 1000000 + 2000000,
			      "timeout of %u ms expired after %lld ns",
			      S->timeout, (long long)el);
		}
	}
}

static void consumer(void *arg)
{
	int i;
	(void)arg;
	for (i = 0; i < S->reads; i++)
		dm_peek();
}

static void setter(void *arg)
{
	int i;
	(void)arg;
	for (i = 0; i < 2 && S->wall[i]; i++)
		sched_set_wall(S->wall[i]);
}

static void blocking(void *arg)
{
	size_t left;
	int i, fits;
	S = arg;
	dm_new(MAXMSG);
	vk_real_ns = 1700000000000000000ll + S->usec * 1000;
	tsan_enabled = 0;
	left = CAP - S->room;
	for (i = 0; left; i++) {
		size_t k = left;
		if (S->chunk && i < S->reads && left > (size_t)S->chunk + 8)
			k = S->chunk;
		if (k > CAP)
			k = CAP;
		CHECK(dm_push(k - 4, 0, 0) == 0, "prefill");
		left -= k;
	}
	tsan_enabled = 1;
	sched_spurious_budget = S->spurious;
	sched_timer_budget = S->timers;
	sched_spawn("producer", producer, NULL);
	sched_spawn("consumer", consumer, NULL);
	if (S->wall[0])
		sched_spawn("setter", setter, NULL);
	sched_run();
	/* everything fits after the reads: without timer it must succeed */
	for (i = 0, fits = 0; i < S->n; i++)
		fits += results[i] == 0;
	mc_outcome(mc_mix(fits, vk_mono_ns));
	dm_drain();
	dm_end();
}

/* no reader: the timeout must expire by itself, and not early */
static void timeout_alone(void *arg)
{
	static const unsigned to[] = { 1, 2, 999, 1000, 1001, 1500, 59999,
		3600000, 4294966, 4294967, 4294968, 2147483647u, 2147483648u,
		UINT_MAX - 1, UINT_MAX };
	static const int64_t us[] = { 0, 1, 499999, 500000, 500001, 999000,
		999999 };
	static const int64_t sec[] = { 0, 1, 1700000000, 2147483647,
		2147483648ll, 4294967295ll };
	int i, j, k, r;
	int64_t t0;
	(void)arg;
	for (i = 0; i < 15; i++)
		for (j = 0; j < 7; j++)
			for (k = 0; k < 6; k++) {
				dm_new(MAXMSG);
				tsan_enabled = 0;
				vk_real_ns = sec[k] * 1000000000 +
					us[j] * 1000;
				vk_mono_ns = 5000000000;
				CHECK(dm_push(MAXMSG, 0, 0) == 0, "prefill");
				t0 = vk_mono_ns;
				mc_case(to[i], us[j], sec[k], 0);
				r = dm_push(1, 1, to[i]);
				mc_count_transitions(1);
				mc_n_nontrivial++;
				CHECK(r == -ETIMEDOUT, "timeout %u ms at "
				      "%lld.%06lld: %d", to[i],
				      (long long)sec[k], (long long)us[j], r);
				CHECK(vk_mono_ns - t0 >= to[i] * 1000000ll,
				      "timeout %u ms at %lld.%06lld expired "
				      "after %lld ns", to[i],
				      (long long)sec[k], (long long)us[j],
				      (long long)(vk_mono_ns - t0));
				CHECK(vk_mono_ns - t0 <= to[i] * 1000000ll +
				      2000000, "timeout %u ms at %lld.%06lld "
				      "expired after %lld ns", to[i],
				      (long long)sec[k], (long long)us[j],
				      (long long)(vk_mono_ns - t0));
				dm_quiescent();
				/* with room a timed push does not wait */
				CHECK(dm_peek() >= 0, "peek");
				t0 = vk_mono_ns;
				CHECK(dm_push(1, 1, to[i]) == 0, "push");
				CHECK(vk_mono_ns == t0, "waited");
				dm_drain();
				dm_end();
			}
	mc_sample("full mailbox, timeout 4294967295 ms at clock x.999999: "
		  "expires after exactly that delay");
}

/* a blocking push waits exactly when the message does not fit */
static void exact_fit(void *arg)
{
	static const uint32_t sz[] = { 0, 1, 5, 4095, 65000 };
	static const unsigned to[] = { 0, 1, 700 };
	int i, d, t, off, r;
	(void)arg;
	for (i = 0; i < 5; i++)
	for (d = -4; d <= 4; d++)
	for (t = 0; t < 3; t++)
	for (off = 0; off < 8; off++) {
		size_t left = CAP - (sz[i] + 4 + d);
		int64_t t0;
		if (sz[i] + 4 + d > CAP || (d < 0 && !to[t]))
			continue;
		dm_new(MAXMSG);
		if (off)
			dm_offset(off);
		tsan_enabled = 0;
		while (left) {
			size_t k = left > CAP / 2 + 8 ? CAP / 2 : left;
			CHECK(dm_push(k - 4, 0, 0) == 0, "prefill");
			left -= k;
		}
		mc_case(sz[i], d, to[t], off);
		t0 = vk_mono_ns;
		r = dm_push(sz[i], 1, to[t]);
		mc_count_transitions(1);
		mc_n_nontrivial++;
		if (d >= 0)
			CHECK(r == 0 && vk_mono_ns == t0, "push of %u bytes "
			      "with room for %d more: %d after %lld ns",
			      sz[i], d, r, (long long)(vk_mono_ns - t0));
		else
			CHECK(r == -ETIMEDOUT && vk_mono_ns - t0 >= to[t] *
			      1000000ll, "push of %u bytes, %d too many: %d "
			      "after %lld ns", sz[i], -d, r,
			      (long long)(vk_mono_ns - t0));
		dm_quiescent();
		dm_drain();
		dm_end();
	}
}

/* all the sequences of sizes: refused only when it does not fit */
static void fill_levels(void *arg)
{
	static const uint32_t sz[] = { 0, 1, 4, 20000, 32760, 32764, 65524,
		65528, 65532 };
	int depth = mc_thorough ? 6 : 5, i;
	dm_new(MAXMSG);
	tsan_enabled = 0;
	for (i = 0; i < depth; i++) {
		int c = i == 0 ? *(int *)arg : mc_choose(10, "operation"), r;
		if (c == 9) {
			dm_peek();
		} else {
			size_t used = q_used();
			int block = 0;
			r = dm_push(sz[c], block, 0);
			CHECK(r == 0 || r == -EAGAIN, "push: %d", r);
			if (r)
				CHECK(used + 4 + sz[c] > CAP, "a message of %u"
				      " bytes is refused with %zu of %u used",
				      sz[c], used, CAP);
		}
		dm_quiescent();
	}
	dm_drain();
	CHECK(dm_push(MAXMSG, 0, 0) == 0, "an empty mailbox refuses the "
	      "maximum size");
	dm_drain();
	dm_end();
}

/* every maximum size: an empty mailbox accepts it, and no more */
static void every_max(void *arg)
{
	size_t m;
	int r;
	for (m = (uintptr_t)arg; m <= MAXMSG; m += 8) {
		mc_case(m, 0, 0, 9);
		dm_new(m);
		tsan_enabled = 0;
		r = dynmbox_push(box, wbuf, m + 1);
		CHECK(r == -EINVAL, "maximum %zu: push of one byte more: %d",
		      m, r);
		r = dynmbox_push_block(box, wbuf, m + 1, 1);
		CHECK(r == -EINVAL, "maximum %zu: blocking push of one byte "
		      "more: %d", m, r);
		r = dynmbox_push(box, wbuf, m);
		CHECK(r == 0, "maximum %zu: push of this size: %d", m, r);
		r = dynmbox_peek(box, rbuf);
		CHECK(r == (int)m, "maximum %zu: peek: %d", m, r);
		r = dynmbox_push_block(box, wbuf, m, 1);
		CHECK(r == 0, "maximum %zu: blocking push of this size: %d",
		      m, r);
		tsan_enabled = 1;
		dynmbox_destroy(box);
		CHECK(!vk_fd_open_count(), "maximum %zu: a descriptor is left",
		      m);
	}
}

static void creation(void *arg)
{
	static const size_t sz[] = { 0, 1, 2, 4, 100, 4096, 65531, 65532 };
	static const size_t bad[] = { 65533, 65534, 65536, 1 << 20,
		(size_t)UINT_MAX, (size_t)UINT_MAX + 1, SIZE_MAX - 4,
		SIZE_MAX };
	uint8_t b[8] = { 0 };
	int i, k;
	(void)arg;
	for (i = 0; i < 8; i++) {
		vk_reset();
		CHECK(!dynmbox_new(bad[i]), "maximum size %zu accepted",
		      bad[i]);
		CHECK(!vk_mem_live && !vk_fd_open_count(), "leak");
		dm_new(sz[i]);
		tsan_enabled = 0;
		/* from every fill level of small steps, and every offset */
		for (k = 0; k < 40; k++) {
			CHECK(dm_push(sz[i], 0, 0) == 0, "an empty mailbox "
			      "refuses its maximum size %zu", sz[i]);
			CHECK(dm_peek() == (ssize_t)sz[i], "peek");
			if (sz[i] > 0) {
				CHECK(dm_push(k % (sz[i] < 7 ? sz[i] : 7), 0,
					      0) == 0, "push");
				CHECK(dm_peek() >= 0, "peek");
			}
		}
		CHECK(dynmbox_push(box, wbuf, sz[i] + 1) == -EINVAL,
		      "oversize message accepted");
		CHECK(dynmbox_push_block(box, wbuf, sz[i] + 1, 0) == -EINVAL,
		      "oversize message accepted");
		CHECK(dynmbox_push_block(box, wbuf, sz[i] + 1, 5) == -EINVAL,
		      "oversize message accepted");
		CHECK(dynmbox_push(box, wbuf, SIZE_MAX) == -EINVAL,
		      "oversize message accepted");
		CHECK(dynmbox_push(box, wbuf, (size_t)UINT_MAX + 1) ==
		      -EINVAL, "oversize message accepted");
		CHECK(dynmbox_push(box, wbuf, SIZE_MAX - 3) == -EINVAL,
		      "oversize message accepted");
		if (sz[i]) {
			CHECK(dynmbox_push(box, NULL, 1) == -EINVAL, "null");
			CHECK(dynmbox_push_block(box, NULL, 1, 3) == -EINVAL,
			      "null");
		}
		CHECK(dynmbox_peek(box, NULL) == -EINVAL, "null");
		CHECK(dynmbox_push(NULL, b, 1) == -EINVAL, "null");
		CHECK(dynmbox_push_block(NULL, b, 1, 0) == -EINVAL, "null");
		CHECK(dynmbox_peek(NULL, b) == -EINVAL, "null");
		CHECK(dynmbox_get_read_fd(NULL) == -1, "null");
		CHECK(dynmbox_get_max_size(NULL) == -EINVAL, "null");
		dynmbox_destroy(NULL);
		CHECK(dm_peek() == -EAGAIN, "a refused message was queued");
		dm_quiescent();
		/* a null message of no byte is valid */
		q[q_in].id = 1;
		q[q_in++].len = 0;
		CHECK(dynmbox_push(box, NULL, 0) == 0, "empty message");
		CHECK(dm_peek() == 0, "empty message");
		mc_case(sz[i], 0, 0, 0);
		dm_end();
	}
}

static struct scn *mk(struct scn s)
{
	static struct scn pool[20000];
	static int n;
	pool[n] = s;
	return &pool[n++];
}

static void add(struct scn s)
{
	static char nm[200];
	sprintf(nm, "block/room%d/n%d/%d,%d,%d/t%u/chunk%d/r%d/us%lld/s%d%d",
		s.room, s.n, s.size[0], s.size[1], s.size[2], s.timeout, s.chunk,
		s.reads, (long long)s.usec, s.spurious, s.timers);
	if (s.wall[0])
		sprintf(nm + strlen(nm), "/wall%lld.%lld",
			(long long)s.wall[0], (long long)s.wall[1]);
	mc_explore(nm, blocking, mk(s));
}

int main(int argc, char **argv)
{
	static const unsigned to[] = { 0, 1000, 1500, 4294968 };
	static const int64_t us[] = { 0, 999999 };
	static const int room[] = { 0, 3, 4, 8, 9, 10 };
	int t, u, r, c, n, sp;
	mc_init(argc, argv);
	for (r = 0; r < 6; r++)
		for (t = 0; t < 4; t++)
			for (u = 0; u < 2; u++)
				for (c = 0; c < 3; c++)
					for (n = 1; n <= 2; n++) {
						if (!mc_thorough && u !=
						    (t == 2))
							continue;
						struct scn s = { room[r], n,
							{ 5, 2 }, to[t],
							c == 0 ? 0 : c == 1 ?
							9 : 5, c + 1, us[u],
							1, 1 };
						if (to[t] == 0 && u)
							continue;
						/* enough reads for both */
						if (c == 2)
							s.reads = 4;
						add(s);
					}
	/* the reader makes room in small steps: woken each time */
	for (sp = 0; sp <= (mc_thorough ? 3 : 2); sp++)
		for (n = 1; n <= 3; n++) {
			struct scn s = { 0, n, { 10, 3, 1 }, 0, 6, n + 2, 0,
				sp, 0 };
			if (mc_thorough) {
				s.size[0] = 20;
				s.reads = 7;
			}
			/* the deepest ones take minutes */
			if (!mc_thorough && n + sp > 3)
				continue;
			add(s);
			if (!mc_thorough && n + sp > 2)
				continue;
			s.timeout = 30;
			s.timers = 1;
			add(s);
		}
	/* reads of messages without bytes make room too */
	for (n = 1; n <= 2; n++)
		for (r = 1; r <= 3; r++)
			for (t = 0; t < 3; t++) {
				struct scn s = { t == 2, n,
					{ t == 1 ? 4 * r - 4 : 0, 0 },
					t == 2 ? 1000 : 0, 4, r, 0, 1, 1 };
				if (n == 2 && (t == 1 || r < 2))
					continue;
				add(s);
			}
	/* the wall clock is set during the wait */
	for (t = 0; t < 3; t++)
		for (r = 0; r < 2; r++)
			for (c = 0; c < 8; c++) {
				static const int64_t by[8][2] = {
					{ 1000000 }, { 3600000000000 },
					{ -1000000 }, { -3600000000000 },
					{ 800000000, 800000000 },
					{ 5000000000, -5000000000 },
					{ -70000000000, 140000000000 },
					{ -1800000000000000000 } };
				struct scn s = { 3, 1 + (t == 2), { 5, 2 },
					t == 1 ? 4294968 : 1500, 5, r, 999999,
					t != 2, t != 2, { by[c][0], by[c][1] } };
				add(s);
			}
	mc_explore("timeout_alone", timeout_alone, NULL);
	for (t = 0; t < 10; t++) {
		static int first[10];
		static char nm[30];
		first[t] = t;
		sprintf(nm, "fill_levels/%d", t);
		mc_explore(nm, fill_levels, &first[t]);
	}
	mc_explore("exact_fit", exact_fit, NULL);
	mc_explore("creation", creation, NULL);
	for (t = 0; t < 8; t++) {
		char nm[30];
		sprintf(nm, "every maximum/%d", t);
		mc_explore(nm, every_max, (void *)(uintptr_t)t);
	}
	mc_sample("full ring of 6-byte messages; push_block of 20 bytes || 7 "
		  "reads: all interleavings with 2 spurious wake-ups");
	return mc_end();
}
