/* C02: the descriptor polls readable exactly while messages are queued */
#include "dm.h"

struct scn {
	int off, room, n, size[4], op[4], cmode, reads;
};
static struct scn *S;
static int in_op[2];
static uint64_t quiet_states;

static void step(void)
{
	if (in_op[0] || in_op[1])
		return;
	quiet_states++;
	dm_quiescent();
}

static void producer(void *arg)
{
	int i, r;
	(void)arg;
	for (i = 0; i < S->n; i++) {
		sched_point("idle", NULL);
		in_op[0] = 1;
		r = dm_push(S->size[i], S->op[i] != 0,
			    S->op[i] == 2 ? 50 : 0);
		in_op[0] = 0;
		if (S->op[i] == 1)
			CHECK(r == 0, "blocking push: %d", r);
	}
	sched_point("idle", NULL);
}

static ssize_t peek_op(void)
{
	ssize_t r;
	sched_point("idle", NULL);
	in_op[1] = 1;
	r = dm_peek();
	in_op[1] = 0;
	return r;
}

static void consumer(void *arg)
{
	int i, got = 0, empty = 0;
	(void)arg;
	if (S->cmode == 1) {
		for (i = 0; i < S->reads; i++)
			peek_op();
		sched_point("idle", NULL);
		return;
	}
	/* sleeps until readable, then reads until empty */
	while (got < S->reads) {
		int n = 0;
		CHECK(dm_poll(-1) == 1, "poll");
		while (peek_op() >= 0)
			n++;
		got += n;
		/* it may be woken in advance of the message, but not for
		 * ever */
		empty = n ? 0 : empty + 1;
		CHECK(empty < 20, "woken for ever by an empty mailbox");
	}
	sched_point("idle", NULL);
}

static void run(void *arg)
{
	S = arg;
	dm_new(MAXMSG);
	in_op[0] = in_op[1] = 0;
	if (S->off >= 0)
		dm_offset(S->off);
	if (S->room >= 0) {
		tsan_enabled = 0;
		CHECK(dm_push(CAP - 4 - S->room, 0, 0) == 0, "prefill");
		tsan_enabled = 1;
	}
	dm_quiescent();
	sched_spurious_budget = 1;
	sched_timer_budget = 1;
	sched_step_hook = step;
	sched_spawn("producer", producer, NULL);
	sched_spawn("consumer", consumer, NULL);
	sched_run();
	mc_outcome(q_in * 64 + q_out);
	dm_quiescent();
	/* and after any later use */
	while (q_out < q_in) {
		CHECK(dm_peek() >= 0, "%d messages lost", q_in - q_out);
		dm_quiescent();
	}
	CHECK(dm_poll(0) == 0, "readable when empty");
	CHECK(dm_push(3, 0, 0) == 0, "push");
	dm_quiescent();
	CHECK(dm_peek() >= 0, "peek");
	dm_quiescent();
	dm_end();
}

/* sequences of one thread, and as many messages as the ring can hold */
static void sequences(void *arg)
{
	int depth = mc_thorough ? 8 : 6, i;
	(void)arg;
	dm_new(MAXMSG);
	for (i = 0; i < depth; i++) {
		switch (mc_choose(7, "operation")) {
		case 0:
			dm_push(0, 0, 0);
			break;
		case 1:
			dm_push(7, 0, 0);
			break;
		case 2:
			dm_push(MAXMSG, 0, 0);
			break;
		case 3:
			dm_push(30000, 0, 0);
			break;
		case 4:
			dm_push(35000, 1, 20);
			break;
		case 5:
			CHECK(dynmbox_push(box, wbuf, MAXMSG + 1) == -EINVAL,
			      "oversize");
			break;
		default:
			dm_peek();
		}
		dm_quiescent();
		if (mc_at_frontier()) {
			int k;
			uint64_t h = mc_mix(i, q_in - q_out);
			/* futures depend on the queue and on the cursors */
			for (k = 0; k < q_in; k++)
				h = mc_mix(h, q[k].len + (k < q_out) * 77777);
			if (mc_state(h))
				mc_prune();
		}
	}
	dm_drain();
	dm_quiescent();
	dm_end();
}

static void many(void *arg)
{
	int n = 0, i, round, block = (intptr_t)arg & 1;
	/* users with many pipes get small ones */
	dm_slots = (intptr_t)arg >> 1;
	dm_new(MAXMSG);
	dm_slots = 0;
	tsan_enabled = 0;
	for (round = 0; round < 2; round++) {
		n = 0;
		while (dm_push(0, block && n < 16000, 0) == 0) {
			n++;
			CHECK(n < 20000, "endless mailbox");
			if (n % 1000 == 1)
				dm_quiescent();
		}
		for (i = 0; i < n; i++) {
			dm_quiescent();
			CHECK(dm_peek() == 0, "peek %d of %d", i, n);
			if (i % 1000 == 0 || i == n - 1)
				dm_quiescent();
		}
		CHECK(dm_peek() == -EAGAIN, "empty");
		dm_quiescent();
		q_in = q_out = 0;
	}
	mc_sample("%d empty messages queued then read, descriptor checked "
		  "after each", n);
	tsan_enabled = 1;
	dm_end();
}

/* one thread, numbers of messages which would not fit a narrow counter */
static void history(void *arg)
{
	int k = (int)(intptr_t)arg, i, r, n = mc_thorough ? 600000 : 70000;
	int depth = k ? 30 : 1, in = 0, out = 0;
	ssize_t g;
	dm_new(MAXMSG);
	tsan_enabled = 0;
	for (i = 0; i < n; i++) {
		wbuf[0] = (uint8_t)in;
		r = i & 1 ? dynmbox_push_block(box, wbuf, in & 1, i & 2) :
			dynmbox_push(box, wbuf, in & 1);
		mc_n_cases++;		/* not an endless loop */
		CHECK(r == 0, "push number %d: %d", in, r);
		in++;
		CHECK(vk_fd_readable(dynmbox_get_read_fd(box)), "not readable "
		      "after push number %d", in);
		while (out < in && in - out >= depth - out % 3) {
			CHECK(vk_fd_readable(dynmbox_get_read_fd(box)),
			      "not readable before message number %d", out);
			g = dynmbox_peek(box, rbuf);
			CHECK(g == (out & 1) && (!g || rbuf[0] == (uint8_t)out),
			      "message number %d: %zd", out, g);
			out++;
		}
		CHECK(!!vk_fd_readable(dynmbox_get_read_fd(box)) == (in > out),
		      "readable is wrong with %d messages", in - out);
	}
	for (; out < in; out++)
		CHECK(dynmbox_peek(box, rbuf) == (out & 1), "message number "
		      "%d", out);
	CHECK(dynmbox_peek(box, rbuf) == -EAGAIN, "a message more");
	dm_quiescent();
	tsan_enabled = 1;
	dm_end();
}

static void two(void *arg)
{
	int k = (int)(intptr_t)arg;
	dm_two(dm_two_max[k], (mc_thorough ? 5 : 4) - (k == 2), 1);
}

static struct scn *mk(struct scn s)
{
	static struct scn pool[20000];
	static int n;
	if (n == 20000)
		mc_broken("scenarios");
	pool[n] = s;
	return &pool[n++];
}

static void add(struct scn s)
{
	static char nm[100];
	sprintf(nm, "off%d/room%d/%d.%d,%d.%d,%d.%d,%d.%d/c%d.%d", s.off,
		s.room, s.size[0], s.op[0], s.size[1], s.op[1], s.size[2],
		s.op[2], s.size[3], s.op[3], s.cmode, s.reads);
	mc_explore(nm, run, mk(s));
}

int main(int argc, char **argv)
{
	int a, o, c, n, k;
	mc_init(argc, argv);
	for (n = 1; n <= (mc_thorough ? 4 : 3); n++)
		for (o = 0; o < 1 << n; o++)
			for (c = 0; c < 2; c++) {
				struct scn s = { 5, -1, n, { 5, 0, 3, 1 },
					{ o & 1, o >> 1 & 1, o >> 2 & 1,
					  o >> 3 & 1 }, c, n + c };
				add(s);
			}
	for (a = 0; a <= 14; a += mc_thorough ? 1 : 2)
		for (o = 0; o < 9; o++) {
			struct scn s = { -1, a, 2, { 3, 6 }, { o % 3, o / 3 },
				1, 3 };
			if (o % 3 == 1 || o / 3 == 1)
				s.cmode = 0, s.reads = 1;
			add(s);
		}
	mc_explore("sequences", sequences, NULL);
	mc_explore("history/1", history, NULL);
	mc_explore("history/30", history, (void *)1);
	mc_explore("many", many, NULL);
	mc_explore("many_block", many, (void *)1);
	mc_explore("many/page1", many, (void *)2);
	mc_explore("many_block/page1", many, (void *)3);
	mc_explore("many/page2", many, (void *)4);
	for (k = 0; k < 4; k++) {
		char nm[30];
		sprintf(nm, "two/%d", k);
		mc_explore(nm, two, (void *)(intptr_t)k);
	}
	mc_sample("push 5 bytes || poll, peek until empty: all interleavings, "
		  "descriptor compared with the queue in every idle state");
	return mc_end();
}
