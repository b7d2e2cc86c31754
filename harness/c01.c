/* C01: dynmbox delivers each accepted message once, intact, in order */
#include "dm.h"

struct scn {
	int off;		/* distance of the cursors to the end */
	int room;		/* room left by prior messages, -1: empty */
	int n, size[4], op[4];	/* op: 0 push, 1 block, 2 block with timeout */
	int cmode;		/* 0: poll and drain, 1: blind reads */
	int reads;
};
static struct scn *S;
static int all_accepted;

static void producer(void *arg)
{
	int i, r;
	(void)arg;
	for (i = 0; i < S->n; i++) {
		r = dm_push(S->size[i], S->op[i] != 0,
			    S->op[i] == 2 ? 50 : 0);
		if (r)
			all_accepted = 0;
		if (S->op[i] == 0)
			CHECK(r == 0 || r == -EAGAIN, "push: %d", r);
		else if (S->op[i] == 1)
			CHECK(r == 0, "blocking push without timeout: %d", r);
		else
			CHECK(r == 0 || r == -ETIMEDOUT, "blocking push: %d",
			      r);
	}
}

static void consumer(void *arg)
{
	int i, got = 0;
	(void)arg;
	if (S->cmode == 1) {
		for (i = 0; i < S->reads; i++)
			dm_peek();
		return;
	}
	while (got < S->reads) {
		CHECK(dm_poll(-1) == 1, "poll");
		while (got < S->reads && dm_peek() >= 0)
			got++;
	}
}

static void run(void *arg)
{
	S = arg;
	dm_new(MAXMSG);
	all_accepted = 1;
	if (S->off >= 0)
		dm_offset(S->off);
	if (S->room >= 0) {
		tsan_enabled = 0;
		CHECK(dm_push(CAP - 4 - S->room, 0, 0) == 0, "prefill");
		tsan_enabled = 1;
	}
	sched_spurious_budget = 1;
	sched_timer_budget = 1;
	sched_spawn("producer", producer, NULL);
	sched_spawn("consumer", consumer, NULL);
	sched_run();
	if (all_accepted && S->room < 0)
		CHECK(q_in == S->n + (S->off >= 0), "accepted %d", q_in);
	mc_outcome(mc_mix(q_in * 64 + q_out, all_accepted));
	dm_drain();
	dm_end();
}

/* one thread, a long history: cursors and counters that would wrap */
static int lh_size, lh_count, lh_depth;

static void long_history(void *arg)
{
	int i, in = 0, out = 0, r;
	ssize_t n;
	(void)arg;
	dm_new(MAXMSG);
	tsan_enabled = 0;
	fill(wbuf, 7, lh_size);
	for (i = 0; i < lh_count; i++) {
		memcpy(wbuf, &in, lh_size < 4 ? lh_size : 4);
		r = dynmbox_push(box, wbuf, lh_size);
		mc_n_cases++;		/* not an endless loop */
		CHECK(r == 0, "push number %d of %d bytes: %d", in, lh_size,
		      r);
		in++;
		if (in - out < lh_depth && i < lh_count - 1)
			continue;
		while (out < in) {
			n = dynmbox_peek(box, rbuf);
			CHECK(n == lh_size, "message number %d of %d bytes: "
			      "%zd", out, lh_size, n);
			CHECK(!memcmp(rbuf, &out, lh_size < 4 ? lh_size : 4),
			      "message number %d of %d bytes: another one",
			      out, lh_size);
			CHECK(lh_size <= 4 || !memcmp(rbuf + 4, wbuf + 4,
						      lh_size - 4),
			      "message number %d of %d bytes differs", out,
			      lh_size);
			out++;
		}
	}
	CHECK(dynmbox_peek(box, rbuf) == -EAGAIN, "a message too many");
	dm_quiescent();
	tsan_enabled = 1;
	dm_end();
}

/* one thread, messages of every size, two by two, going round the ring */
static void every_size(void *arg)
{
	static uint8_t src[MAXMSG + 600];
	uint32_t part = (uint32_t)(uintptr_t)arg, len, len2, o, o2, i = 0;
	ssize_t n;
	int r;
	dm_new(MAXMSG);
	tsan_enabled = 0;
	fill(src, 3, sizeof(src));
	for (len = part; len <= MAXMSG; len += 8) {
		mc_n_cases++;
		i++;
		o = i % 257;
		o2 = i % 263 + 300;
		len2 = (len * 7919u + i * 31) % (MAXMSG + 1);
		r = dynmbox_push(box, src + o, len);
		CHECK(r == 0, "push of %u bytes: %d", len, r);
		r = dynmbox_push(box, src + o2, len2);
		CHECK(r == 0 || (r == -EAGAIN && len + len2 + 8 > CAP), "push of %u "
		      "bytes with %u used: %d", len2, len + 4, r);
		memset(rbuf, 0xc3, MAXMSG);
		n = dynmbox_peek(box, rbuf);
		CHECK(n == (ssize_t)len && !memcmp(rbuf, src + o, len),
		      "message of %u bytes: read %zd bytes%s", len, n,
		      n == (ssize_t)len ? ", others" : "");
		CHECK(len == MAXMSG || rbuf[len] == 0xc3, "message of %u "
		      "bytes: written beyond", len);
		if (!r) {
			n = dynmbox_peek(box, rbuf);
			CHECK(n == (ssize_t)len2 && !memcmp(rbuf, src + o2,
			      len2), "message of %u bytes after one of %u: "
			      "read %zd bytes%s", len2, len, n,
			      n == (ssize_t)len2 ? ", others" : "");
		}
		CHECK(dynmbox_peek(box, rbuf) == -EAGAIN, "a message too "
		      "many after %u and %u bytes", len, len2);
	}
	dm_quiescent();
	tsan_enabled = 1;
	dm_end();
}

/* every maximum size at creation: filled to the refusal, several turns */
static void small_max(void *arg)
{
	static const size_t mx[] = { 0, 1, 2, 3, 4, 5, 9, 27, 100, 1021, 4096,
		30000, 65531 };
	size_t max = mx[(intptr_t)arg];
	int round, half, r, i, n;
	dm_new(max);
	tsan_enabled = 0;
	for (round = 0; round < 6; round++) {
		tsan_enabled = round < 2;	/* bounds */
		q_in = q_out = 0;
		for (half = 0; half < 3; half++) {
			for (i = 0, r = 0; i < 17000 && r == 0; i++) {
				r = dm_push((i * 7 + round) % (max + 1),
					    round & 1, round & 1);
				mc_n_cases++;
			}
			CHECK(r == (round & 1 ? -ETIMEDOUT : -EAGAIN),
			      "maximum size %zu: push number %d: %d", max, i,
			      r);
			CHECK(q_in > q_out, "maximum size %zu: refused when "
			      "empty", max);
			for (n = (q_in - q_out) * (half + round % 2) / 3; n;
			     n--)
				CHECK(dm_peek() >= 0, "maximum size %zu: "
				      "message lost", max);
			if (q_in > 2000 && half == 0)
				break;
		}
		dm_quiescent();
		dm_drain();
		dm_quiescent();
	}
	tsan_enabled = 1;
	dm_end();
}

static void two(void *arg)
{
	int k = (int)(intptr_t)arg;
	dm_two(dm_two_max[k], (mc_thorough ? 5 : 4) - (k == 2), 0);
}

static struct scn *mk(struct scn s)
{
	static struct scn pool[20000];
	static int n;
	if (n == 20000)
		mc_broken("scenarios");
	pool[n] = s;
	return &pool[n++];
}

static void add(struct scn s)
{
	static char nm[100];
	sprintf(nm, "off%d/room%d/%d.%d,%d.%d,%d.%d,%d.%d/c%d.%d", s.off,
		s.room, s.size[0], s.op[0], s.size[1], s.op[1], s.size[2],
		s.op[2], s.size[3], s.op[3], s.cmode, s.reads);
	mc_explore(nm, run, mk(s));
}

int main(int argc, char **argv)
{
	static const int sz[] = { 0, 1, 5, 9 };
	int k, a, b, c, o;
	mc_init(argc, argv);
	/* every ring position near the end, two messages */
	for (k = 0; k <= 18; k++)
		for (a = 0; a < 4; a++)
			for (b = 0; b < 4; b++)
				for (c = 0; c < 2; c++) {
					struct scn s = { k, -1, 2,
						{ sz[a], sz[b] },
						{ (a + b) & 1, k & 1 }, c, 2 };
					add(s);
				}
	/* three messages, fewer positions, all mixes of the operations */
	for (k = 1; k <= 13; k += 3)
		for (o = 0; o < 8; o++)
			for (c = 0; c < 2; c++) {
				struct scn s = { k, -1, 3, { 5, 0, 3 },
					{ o & 1, o >> 1 & 1, o >> 2 & 1 },
					c, 3 };
				add(s);
			}
	/* nearly full: refused, blocked and timed out pushes */
	for (k = 0; k <= 12; k += mc_thorough ? 1 : 4)
		for (a = 0; a <= 14; a++)
			for (o = 0; o < 9; o++) {
				struct scn s = { k, a, 2, { 3, 6 },
					{ o % 3, o / 3 }, 1, 3 };
				if (s.op[0] && s.op[1])
					s.reads = 3;
				if (o % 3 == 1 || o / 3 == 1)
					s.cmode = 0, s.reads = 1;
				add(s);
			}
	/* large messages across the end of the ring */
	for (k = 0; k < 3; k++) {
		static const int big[] = { 30000, 40000, 65532 };
		struct scn s = { 20000, -1, 2, { big[k], 100 }, { 1, 1 }, 0,
			2 };
		add(s);
		s.op[0] = s.op[1] = 0;
		s.cmode = 1;
		add(s);
	}
	if (mc_thorough) {
		for (k = 0; k <= 9; k++)
			for (o = 0; o < 81; o++)
				for (c = 0; c < 2; c++) {
					struct scn s = { k, -1, 4,
						{ sz[o % 3], sz[o / 3 % 3],
						  sz[o / 9 % 3],
						  sz[o / 27 % 3] },
						{ 0, 1, 0, 1 }, c, 4 };
					add(s);
				}
		for (k = 0; k <= 10; k++)
			for (a = 0; a < 64; a++)
				for (c = 0; c < 2; c++) {
					struct scn s = { k, -1, 3,
						{ sz[a & 3], sz[a >> 2 & 3],
						  sz[a >> 4] }, { 0, 1, 0 },
						c, 3 };
					add(s);
				}
	}
	for (k = 0; k < 13; k++) {
		char nm[30];
		sprintf(nm, "small_max/%d", k);
		mc_explore(nm, small_max, (void *)(intptr_t)k);
	}
	/* more than 2^17 messages, more than 2^32 bytes */
	{
		static const int lh[][3] = { { 0, 200000, 3 },
			{ 1, 200000, 5 }, { 13, 200000, 100 },
			{ 1000, 70000, 60 }, { 65532, 66000, 1 } };
		for (k = 0; k < 5; k++) {
			char nm[60];
			lh_size = lh[k][0];
			lh_count = lh[k][1];
			lh_depth = lh[k][2];
			sprintf(nm, "history/%dx%d", lh_count, lh_size);
			mc_explore(nm, long_history, NULL);
		}
	}
	for (k = 0; k < 8; k++) {
		char nm[30];
		sprintf(nm, "every size/%d", k);
		mc_explore(nm, every_size, (void *)(uintptr_t)k);
	}
	for (k = 0; k < 4; k++) {
		char nm[30];
		sprintf(nm, "two/%d", k);
		mc_explore(nm, two, (void *)(intptr_t)k);
	}
	mc_sample("cursors 5 bytes before the end; producer pushes 5 bytes "
		  "then 0; consumer polls and drains: all interleavings");
	return mc_end();
}
