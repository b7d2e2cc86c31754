/* C04: mbox delivers whole messages, once, in order per producer */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include "fibers.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <futils/mbox.h>

#define NP 3
#define NM 4
struct scn {
	int slots, size, prefill, np, n[NP], op[NP][NM];
	unsigned timeout;
	int cmode, reads;	/* 0 polls and drains, 1 blind reads */
	int eintr, timers;
	int idle;		/* compare the descriptor between operations */
};
static struct scn *S;
static struct mbox *box;
static uint8_t *rbuf, *wb[NP + 1];
/* the model: messages per producer (the last is the main thread) */
static int acc[NP + 1], got[NP + 1], cnt_acc, cnt_got;
static uint8_t acc_seq[NP + 1][40];	/* sequence numbers accepted */
static int in_op[NP + 1];
static int done;		/* producers which ended */

/* small messages hold less of the identity: sizes of one byte 32*p+s */
static void fill(uint8_t *b, int size, int p, int s)
{
	int j;
	for (j = 0; j < size; j++)
		b[j] = (uint8_t)(p * 64 + s + j * 7 * (1 + s));
}

static void box_new(int slots, int size)
{
	int i;
	vk_use_arena = 1;
	vk_reset();
	vk_pipe_slots = slots;
	tsan_enabled = 0;
	memset(acc, 0, sizeof(acc));
	memset(got, 0, sizeof(got));
	memset(in_op, 0, sizeof(in_op));
	cnt_acc = cnt_got = done = 0;
	box = mbox_new(size);
	CHECK(box, "mbox_new(%d) failed", size);
	rbuf = vk_malloc(size);
	for (i = 0; i <= NP; i++)
		wb[i] = vk_malloc(size);
	tsan_enabled = 1;
}

static void box_end(void)
{
	int i;
	mbox_destroy(box);
	vk_free(rbuf);
	for (i = 0; i <= NP; i++)
		vk_free(wb[i]);
	CHECK(vk_mem_live == 0, "memory leak");
	CHECK(vk_fd_open_count() == 0, "descriptor leak");
}

static int sz, errors;
static int push_op(int p, int s, int op, unsigned timeout)
{
	int r;
	int64_t t0 = vk_mono_ns;
	vk_hard_sites = 0;
	fill(wb[p], sz, p, s);
	/* visible to the reader before the return */
	acc_seq[p][acc[p]++] = s;
	cnt_acc++;
	r = op ? mbox_push_block(box, wb[p], op == 2 ? timeout : 0) :
		mbox_push(box, wb[p]);
	sched_note(r);
	mc_log("push%s %d.%d = %d", op ? "_block" : "", p, s, r);
	if (r) {
		acc[p]--;
		cnt_acc--;
		CHECK(got[p] <= acc[p], "a message whose push failed (%d) was "
		      "read", r);
	}
	if (errors && vk_hard_sites)
		CHECK(r <= 0, "push with a failing descriptor: %d", r);
	else if (op == 0)
		CHECK(r == 0 || r == -EAGAIN, "push: %d", r);
	else if (op == 1)
		CHECK(r == 0, "blocking push without delay: %d", r);
	else
		CHECK(r == 0 || r == -ETIMEDOUT, "blocking push: %d", r);
	if (r == -ETIMEDOUT)
		CHECK(vk_mono_ns - t0 >= timeout * 1000000ll, "delay of %u ms "
		      "expired after %lld ns", timeout,
		      (long long)(vk_mono_ns - t0));
	return r;
}

static int peek_op(void)
{
	static uint8_t exp[4096];
	int r, p, j = 0;
	vk_hard_sites = 0;
	memset(rbuf, 0xee, sz);
	r = mbox_peek(box, rbuf);
	sched_note(r);
	mc_log("peek = %d", r);
	if (r < 0 && errors && vk_hard_sites)
		return r;
	if (r) {
		CHECK(r == -EAGAIN, "peek: %d", r);
		for (j = 0; j < sz; j++)
			CHECK(rbuf[j] == 0xee, "an empty mailbox changed the "
			      "buffer");
		return r;
	}
	p = rbuf[0] / 64;
	CHECK(p <= NP && got[p] < acc[p], "a message was read which was not "
	      "pushed (first byte %#x)", rbuf[0]);
	fill(exp, sz, p, acc_seq[p][got[p]]);
	for (j = 0; j < sz; j++)
		CHECK(rbuf[j] == exp[j], "byte %d of %d differs from message "
		      "%d of producer %d", j, sz, acc_seq[p][got[p]], p);
	got[p]++;
	cnt_got++;
	return 0;
}

static void quiescent(void)
{
	int rd = vk_fd_readable(mbox_get_read_fd(box));
	CHECK(!!rd == (cnt_acc > cnt_got), "descriptor %sreadable with %d "
	      "messages queued", rd ? "" : "not ", cnt_acc - cnt_got);
}

static void step(void)
{
	int i;
	for (i = 0; i <= NP; i++)
		if (in_op[i])
			return;
	quiescent();
}

static void producer(void *arg)
{
	int p = (int)(intptr_t)arg, i;
	for (i = 0; i < S->n[p]; i++) {
		if (S->idle)
			sched_point("idle", NULL);
		in_op[p] = 1;
		push_op(p, i, S->op[p][i], S->timeout);
		in_op[p] = 0;
	}
	sched_sync(&done);
	done++;
}

static int cons_ready(void *arg)
{
	(void)arg;
	return vk_fd_readable(mbox_get_read_fd(box)) || done == S->np;
}

static void consumer(void *arg)
{
	int i;
	(void)arg;
	if (S->cmode == 1) {
		for (i = 0; i < S->reads; i++) {
			if (S->idle)
				sched_point("idle", NULL);
			in_op[NP] = 1;
			peek_op();
			in_op[NP] = 0;
		}
		return;
	}
	/* polls, reads one or until empty, as long as producers run */
	for (;;) {
		struct pollfd p = { mbox_get_read_fd(box), POLLIN, 0 };
		int r;
		sched_block("wait", cons_ready, NULL, NULL, -1);
		r = vk_poll(&p, 1, 0);
		sched_sync(&done);
		sched_note(done);
		if (r < 0 && errno == EINTR)
			continue;
		if (!r) {
			if (done == S->np)
				return;
			mc_broken("woken");
		}
		CHECK(peek_op() == 0, "readable but empty");
		if (S->reads)
			while (peek_op() == 0)
				;
	}
}

static void run(void *arg)
{
	static const char *const nm[] = { "producer0", "producer1",
		"producer2" };
	int i;
	S = arg;
	sz = S->size;
	box_new(S->slots, sz);
	tsan_enabled = 0;
	for (i = 0; i < S->prefill; i++)
		CHECK(push_op(NP, i, 0, 0) == 0, "prefill");
	tsan_enabled = 1;
	quiescent();
	vk_fault_mask = VKM(VKF_READ) | VKM(VKF_WRITE) | VKM(VKF_POLL);
	vk_fault_budget = S->eintr;
	sched_timer_budget = S->timers;
	vk_clock_quiet = !mc_thorough;
	sched_step_hook = step;
	for (i = 0; i < S->np; i++)
		sched_spawn(nm[i], producer, (void *)(intptr_t)i);
	sched_spawn("consumer", consumer, NULL);
	sched_run();
	vk_fault_mask = 0;
	mc_outcome(cnt_acc * 64 + cnt_got);
	quiescent();
	while (cnt_got < cnt_acc)
		CHECK(peek_op() == 0, "%d messages lost", cnt_acc - cnt_got);
	CHECK(peek_op() == -EAGAIN, "a message too many");
	quiescent();
	acc[NP] = got[NP] = 0;
	CHECK(push_op(NP, 1, 0, 0) == 0, "push in an empty mailbox");
	CHECK(peek_op() == 0, "peek");
	box_end();
}

/* one thread, all sequences of operations with interruptions */
struct seq { int slots, size, errors; };
static void sequences(void *arg)
{
	struct seq *q = arg;
	/* a descriptor which fails otherwise than by an interruption */
	static const int write_e[] = { EINTR, EIO, EPIPE, EBADF, ENOMEM,
		EFAULT, EINVAL, EPERM, ENOSPC, ENOSYS, 0 };
	static const int read_e[] = { EINTR, EIO, EBADF, EFAULT, EINVAL,
		EISDIR, ENOSYS, 0 };
	static const int poll_e[] = { EINTR, ENOMEM, EINVAL, EFAULT, ENOSYS,
		0 };
	int i, depth = mc_thorough ? 9 : 7, s = 0;
	errors = q->errors;
	sz = q->size;
	if (errors)
		depth = mc_thorough ? 7 : 5;
	box_new(q->slots, sz);
	vk_fault_mask = VKM(VKF_READ) | VKM(VKF_WRITE) | VKM(VKF_POLL);
	vk_fault_budget = mc_thorough ? 3 : 2;
	if (errors) {
		vk_errs[VKF_WRITE] = write_e;
		vk_errs[VKF_READ] = read_e;
		vk_errs[VKF_POLL] = poll_e;
		vk_fault_budget = 2;
	}
	for (i = 0; i < depth; i++) {
		int64_t t0 = vk_mono_ns;
		int was = cnt_acc - cnt_got, r;
		int full = vk_pipe_bytes(mbox_get_read_fd(box)) + sz >
			(size_t)q->slots * 4096;
		switch (mc_choose(4, "operation")) {
		case 0:
			r = push_op(0, s++ % 32, 0, 0);
			CHECK(vk_mono_ns == t0, "push waited");
			if (was == 0 && !(errors && vk_hard_sites))
				CHECK(r == 0, "an empty mailbox refuses");
			if (full && !(errors && vk_hard_sites))
				CHECK(r == -EAGAIN, "full but accepted");
			break;
		case 1:
			r = peek_op();
			if (!errors || !vk_hard_sites)
				CHECK((r == 0) == (was > 0), "peek of %d "
				      "messages: %d", was, r);
			CHECK(vk_mono_ns == t0, "peek waited");
			break;
		case 2:
			r = push_op(0, s++ % 32, 2, 30);
			if (was == 0 && !(errors && vk_hard_sites))
				CHECK(r == 0 && vk_mono_ns == t0,
				      "an empty mailbox waits");
			break;
		default:
			r = push_op(0, s++ % 32, 2, INT_MAX);
			break;
		}
		quiescent();
		if (mc_at_frontier()) {
			uint64_t h = mc_mix(i, vk_pipe_bytes(
				mbox_get_read_fd(box)));
			h = mc_mix(h, vk_fault_budget);
			h = mc_mix(h, s % 32 * 1000 + cnt_acc - cnt_got);
			h = mc_mix(h, (uint64_t)cnt_acc);
			if (mc_state(h))
				mc_prune();
		}
	}
	if (errors)
		vk_fault_mask = 0;
	while (cnt_got < cnt_acc)
		CHECK(peek_op() == 0, "%d messages lost", cnt_acc - cnt_got);
	CHECK(peek_op() == -EAGAIN, "a message too many");
	errors = 0;
	box_end();
}

/* two mailboxes used alternately, one of them made anew; from descriptor 0, 700
 * or 4000 (beyond what an fd_set holds) */
struct two { int size[2]; };
static void two(void *arg)
{
	struct two *q = arg;
	struct { struct mbox *b; uint8_t *r; int head, n, room; uint8_t m[64]; }
		x[2];
	int i, k, j, depth = mc_thorough ? 6 : 5, c, r, base;
	int64_t t0;
	static uint8_t w[4096];
	static const int bases[] = { 700, 0, 4000 };
	base = bases[mc_choose(3, "descriptors")];
	vk_use_arena = 1;
	vk_reset();
	vk_fd_base = base;
	vk_pipe_slots = 1;
	for (k = 0; k < 2; k++) {
		x[k].b = mbox_new(q->size[k]);
		CHECK(x[k].b, "mbox_new(%d) failed", q->size[k]);
		x[k].r = vk_malloc(q->size[k]);
		x[k].head = x[k].n = 0;
	}
	for (i = 0; i < depth; i++) {
		c = mc_choose(7, "operation");
		k = c & 1;
		c >>= 1;
		t0 = vk_mono_ns;
		if (c == 3) {
			mbox_destroy(x[0].b);
			x[0].b = mbox_new(q->size[0]);
			CHECK(x[0].b, "mbox_new(%d) failed", q->size[0]);
			x[0].head = x[0].n = 0;
		} else if (c < 2) {
			int some = vk_pipe_bytes(mbox_get_read_fd(x[k].b));
			int full = some + q->size[k] > 4096;
			fill(w, q->size[k], k * 2, i);
			r = c ? mbox_push_block(x[k].b, w, 30) :
				mbox_push(x[k].b, w);
			mc_log("push%s %d = %d", c ? "_block" : "", k, r);
			/* a page which was partly read may have no room */
			CHECK(r == (!full ? 0 : c ? -ETIMEDOUT : -EAGAIN) ||
			      (some && r == (c ? -ETIMEDOUT : -EAGAIN)),
			      "push in mailbox %d: %d", k, r);
			CHECK(vk_mono_ns - t0 >= (r == -ETIMEDOUT ? 30000000 :
						  0) &&
			      (r == -ETIMEDOUT || vk_mono_ns == t0),
			      "push in mailbox %d waited for %lld ns", k,
			      (long long)(vk_mono_ns - t0));
			if (!r)
				x[k].m[x[k].head + x[k].n++] = i;
		} else {
			r = mbox_peek(x[k].b, x[k].r);
			mc_log("peek %d = %d", k, r);
			CHECK(r == (x[k].n ? 0 : -EAGAIN), "mailbox %d of %d "
			      "messages: read gives %d", k, x[k].n, r);
			if (!r) {
				fill(w, q->size[k], k * 2,
				     x[k].m[x[k].head++]);
				x[k].n--;
				for (j = 0; j < q->size[k]; j++)
					CHECK(x[k].r[j] == w[j], "byte %d of "
					      "a message of mailbox %d", j, k);
			}
		}
		for (k = 0; k < 2; k++)
			CHECK(!!vk_fd_readable(mbox_get_read_fd(x[k].b)) ==
			      (x[k].n > 0), "readable with %d messages in "
			      "mailbox %d", x[k].n, k);
	}
	for (k = 0; k < 2; k++) {
		mbox_destroy(x[k].b);
		vk_free(x[k].r);
	}
	CHECK(vk_mem_live == 0, "memory leak");
	CHECK(vk_fd_open_count() == 0, "descriptor leak");
	mc_outcome(x[0].n * 8 + x[1].n);
}

/* one thread, numbers of messages which would not fit a narrow counter */
static void history(void *arg)
{
	static const int q[][2] = { { 1, 7 }, { 4, 1 }, { 8, 500 }, { 4095, 3 } };
	int k = (int)(intptr_t)arg, size = q[k][0], depth = q[k][1], i, j;
	int in = 0, out = 0, r, rd, n = mc_thorough ? 600000 : 70000;
	uint8_t w[4096], g[4096];
	box_new(16, size);
	for (i = 0; i < size; i++)
		w[i] = i * 7 + (i >> 8);
	for (i = 0; i < n; i++) {
		memcpy(w, &in, size < 4 ? size : 4);
		r = i % 3 ? mbox_push_block(box, w, i % 3 == 1 ? 0 : 30) :
			mbox_push(box, w);
		mc_n_cases++;		/* not an endless loop */
		CHECK(r == 0, "push number %d of %d bytes: %d", in, size, r);
		in++;
		rd = vk_fd_readable(mbox_get_read_fd(box));
		CHECK(rd, "not readable with %d messages", in - out);
		if (in - out < depth && i < n - 1)
			continue;
		for (; out < in; out++) {
			r = mbox_peek(box, g);
			CHECK(r == 0, "message number %d of %d bytes: %d", out,
			      size, r);
			memcpy(w, &out, size < 4 ? size : 4);
			for (j = 0; j < size && g[j] == w[j]; j++)
				;
			CHECK(j == size, "message number %d of %d bytes: byte "
			      "%d differs", out, size, j);
		}
		CHECK(!vk_fd_readable(mbox_get_read_fd(box)), "readable "
		      "without message");
		if (in % 7 == 0)
			CHECK(mbox_peek(box, g) == -EAGAIN, "a message more");
	}
	box_end();
}

/* messages of every size: filled to the refusal, and read, twice */
static void every_size(void *arg)
{
	static uint8_t m[PIPE_BUF], got[PIPE_BUF + 1];
	struct mbox *b;
	size_t s, k;
	int r, i, n, round;
	for (s = 1 + (uintptr_t)arg; s < PIPE_BUF; s += 8) {
		mc_case(s, 0, 0, 7);
		vk_use_arena = 1;
		vk_reset();
		b = mbox_new(s);
		CHECK(b, "size %zu refused", s);
		tsan_enabled = 0;
		for (k = 0; k < s; k++)
			m[k] = (uint8_t)(k * 7 + (k >> 8) + s);
		for (round = 0; round < 2; round++) {
			/* the first bytes are the number */
			for (n = 0; n < 70000; n++) {
				memcpy(m, &n, s < 4 ? s : 4);
				r = mbox_push(b, m);
				if (r)
					break;
				mc_n_cases++;
			}
			CHECK(r == -EAGAIN && n >= 16, "size %zu: push number "
			      "%d: %d", s, n, r);
			for (i = 0; i < n; i++) {
				memset(got, 0xc3, s + 1);
				memcpy(m, &i, s < 4 ? s : 4);
				r = mbox_peek(b, got);
				CHECK(r == 0 && !memcmp(got, m, s), "size %zu: "
				      "message number %d: %d%s", s, i, r,
				      r ? "" : ", another one");
				CHECK(got[s] == 0xc3, "size %zu: written "
				      "beyond", s);
			}
			r = mbox_peek(b, got);
			CHECK(r == -EAGAIN, "size %zu: empty: %d", s, r);
		}
		mbox_destroy(b);
		tsan_enabled = 1;
		CHECK(!vk_mem_live && !vk_fd_open_count(), "leak");
	}
}

static void creation(void *arg)
{
	static const size_t ok[] = { 1, 2, 511, 2048, 4094, 4095 };
	static const size_t bad[] = { 0, 4096, 4097, 8192, 65536, UINT_MAX,
		(size_t)UINT_MAX + 2, SIZE_MAX };
	static const unsigned to[] = { 1, 2, 999, 1000, 1001, 3600000,
		2147483, 2147484, INT_MAX - 1, INT_MAX };
	int i, k, n;
	uint8_t b[8];
	(void)arg;
	for (i = 0; i < 8; i++) {
		vk_use_arena = 1;
		vk_reset();
		mc_case(bad[i], 0, 0, 0);
		CHECK(!mbox_new(bad[i]), "size %zu accepted", bad[i]);
		CHECK(!vk_mem_live && !vk_fd_open_count(), "leak");
	}
	for (i = 0; i < 6; i++) {
		sz = ok[i];
		box_new(16, sz);
		mc_case(ok[i], 1, 0, 0);
		CHECK(mbox_push(NULL, b) == -EINVAL, "null");
		CHECK(mbox_push(box, NULL) == -EINVAL, "null");
		CHECK(mbox_push_block(NULL, b, 0) == -EINVAL, "null");
		CHECK(mbox_push_block(box, NULL, 0) == -EINVAL, "null");
		CHECK(mbox_push_block(box, NULL, 5) == -EINVAL, "null");
		CHECK(mbox_peek(NULL, b) == -EINVAL, "null");
		CHECK(mbox_peek(box, NULL) == -EINVAL, "null");
		CHECK(mbox_get_read_fd(NULL) == -1, "null");
		mbox_destroy(NULL);
		CHECK(peek_op() == -EAGAIN, "a refused message was queued");
		quiescent();
		box_end();
	}
	/* a full mailbox: refusal at once, delays really waited for */
	for (i = 0; i < 10; i++)
		for (k = 2048; k < 4096; k += 2047) {
			sz = k;
			box_new(1, sz);
			for (n = 0; mbox_push(box, wb[NP]) == 0; n++)
				CHECK(n < 3, "endless");
			while (mbox_peek(box, rbuf) == 0)
				;
			for (n = 0; push_op(0, n, 0, 0) == 0; n++)
				;
			mc_case(to[i], k, n, 0);
			CHECK(push_op(0, n, 2, to[i]) == -ETIMEDOUT, "full");
			CHECK(push_op(0, n, 0, 0) == -EAGAIN, "full");
			quiescent();
			while (cnt_got < cnt_acc)
				peek_op();
			CHECK(push_op(0, 1, 1, 0) == 0, "push");
			CHECK(peek_op() == 0, "peek");
			box_end();
		}
}

/* a full mailbox whose waits are cut every so often: by a signal, or since
 * another producer takes the room at once; the delay expires all the same */
static int64_t cut_period;
static int cut_kind, cut_n;
static int cut(struct pollfd *p, int timeout)
{
	int64_t next = (vk_mono_ns / cut_period + 1) * cut_period;
	if (timeout >= 0 && next >= vk_mono_ns + timeout * 1000000ll)
		return -1;
	CHECK(++cut_n < 3000, "the delay never expires");
	vk_advance(next - vk_mono_ns);
	if (cut_kind == 0 || (cut_kind == 2 && (cut_n & 1)))
		return -2;
	p->revents = POLLOUT;
	return 1;
}

static void cuts(void *arg)
{
	static const unsigned to[] = { 1, 2, 30, 1000, 1001, 86400000,
		INT_MAX };
	int i, k, d, n;
	int64_t t0;
	for (i = 0; i < 7; i++)
	for (k = 0; k < 3; k++)
	for (d = 1; d <= 70; d++) {
		/* the period: some 70ths of the delay, and next to it */
		int64_t T = to[i] * 1000000ll;
		cut_period = d < 67 ? T * d / 60 + (d & 3) - 1 :
			T + (d - 68) * 1000;
		if (cut_period < 1)
			continue;
		sz = (intptr_t)arg;
		box_new(1, sz);
		vk_mono_ns = 5000000000 + d * 123457;
		for (n = 0; push_op(0, n % 32, 0, 0) == 0; n++)
			;
		cut_kind = k;
		cut_n = 0;
		vk_wait_hook = cut;
		mc_case(to[i], k, d, sz);
		mc_n_nontrivial++;
		t0 = vk_mono_ns;
		CHECK(push_op(0, 1, 2, to[i]) == -ETIMEDOUT, "full");
		/* nothing else takes time here */
		CHECK(vk_mono_ns - t0 <= T + 2000000, "delay of %u ms cut "
		      "every %lld ns: it expires after %lld ns", to[i],
		      (long long)cut_period, (long long)(vk_mono_ns - t0));
		mc_outcome(cut_n);
		vk_wait_hook = NULL;
		quiescent();
		acc[0] = got[0] = cnt_acc = cnt_got = 0;
		while (mbox_peek(box, rbuf) == 0)
			;
		box_end();
	}
	mc_count_transitions(mc_n_nontrivial);
}

/* the pipe model against the running kernel */
static void conformance(void *arg)
{
	static const int wsz[] = { 1, 1000, 2048, 4095, 4096, 1 };
	static const int rsz[] = { 1, 1000, 2048, 4095 };
	static uint8_t w[5000], r1[5000], r2[5000];
	int slots = (int)(intptr_t)arg, depth = mc_thorough ? 7 : 5, fds[2];
	static struct vk_pipe p;
	int i, c;
	if (pipe2(fds, O_NONBLOCK | O_CLOEXEC) < 0 ||
	    fcntl(fds[1], F_SETPIPE_SZ, slots * 4096) != slots * 4096) {
		/* no such control here: nothing to compare with */
		mc_note_cap("the running kernel refuses F_SETPIPE_SZ");
		return;
	}
	vk_pipe_init(&p, slots);
	for (i = 0; i < depth; i++) {
		struct pollfd pf[2] = { { fds[0], POLLIN, 0 },
			{ fds[1], POLLOUT, 0 } };
		ssize_t a, b;
		c = mc_choose(9, "call");
		if (c < 5) {
			memset(w, i + 1, sizeof(w));
			a = write(fds[1], w, wsz[c]);
			if (a < 0)
				a = -errno;
			b = vk_pipe_do_write(&p, w, wsz[c]);
		} else {
			a = read(fds[0], r1, rsz[c - 5]);
			if (a < 0)
				a = -errno;
			b = p.nused ? vk_pipe_do_read(&p, r2, rsz[c - 5]) :
				-EAGAIN;
			if (a == b && a > 0 && memcmp(r1, r2, a))
				mc_broken("pipe model: other data");
		}
		if (a != b)
			mc_broken("pipe model: call %d gives %zd, the kernel "
				  "%zd", c, b, a);
		poll(pf, 2, 0);
		if (!!(pf[0].revents & POLLIN) != (p.nused > 0) ||
		    !!(pf[1].revents & POLLOUT) != (p.nused < slots))
			mc_broken("pipe model: other poll state");
	}
	mc_validated(1);
	close(fds[0]);
	close(fds[1]);
}

static struct scn *mk(struct scn s)
{
	static struct scn pool[8000];
	static int n;
	if (n == 8000)
		mc_broken("scenarios");
	pool[n] = s;
	return &pool[n++];
}

static void add(struct scn s)
{
	static char nm[120];
	sprintf(nm, "s%d/size%d/pre%d/%d.%d.%d:%d%d,%d%d,%d%d/t%u/c%d.%d/e%d"
		"/t%d/i%d", s.slots, s.size, s.prefill, s.n[0], s.n[1], s.n[2],
		s.op[0][0], s.op[0][1], s.op[1][0], s.op[1][1], s.op[2][0],
		s.op[2][1], s.timeout, s.cmode, s.reads, s.eintr, s.timers, s.idle);
	mc_explore(nm, run, mk(s));
}

int main(int argc, char **argv)
{
	static const int size[] = { 1, 3, 1500, 2048, 2049, 4095 };
	static const int first[][2] = { { 0, 0 }, { 0, 1 }, { 1, 1 },
		{ 2, 0 }, { 2, 1 }, { 1, 2 }, { 2, 2 } };
	int i, a, b, sl, c, e;
	mc_init(argc, argv);
	/* e 0: 2+1 messages; 1: the same with comparisons of the descriptor
	 * between the operations; 2: 1+1 with interruptions */
	for (i = 0; i < 6; i++)
	for (sl = 1; sl <= 2; sl++)
	for (a = 0; a < 7; a++)
	for (b = 0; b < 3; b++)
	for (c = 0; c < 3; c++)
	for (e = 0; e < 3; e++) {
		struct scn s = { sl, size[i], 0, 2, { 2, 1 } };
		int room = 4096 / size[i], blocks = 0, timed = 0, j;
		static const int one[] = { 0, 1, 2 };
		memcpy(s.op[0], first[a], sizeof(first[a]));
		s.op[1][0] = one[b];
		for (j = 0; j < 3; j++) {
			int o = j < 2 ? s.op[0][j] : s.op[1][0];
			blocks += o == 1;
			timed += o == 2;
		}
		if (!mc_thorough && (e != 2 || sl == 2) && (i & 1) != (sl ==
		    2))
			continue;
		if (!mc_thorough && e == 1 && (c == 1 || timed > 1))
			continue;
		if (!mc_thorough && c == 1 && i > 2)
			continue;
		if (e == 2) {
			if (a > 2)
				continue;
			s.n[0] = mc_thorough ? 2 : 1;
			if (!mc_thorough) {
				s.op[0][0] = a;
				s.op[0][1] = 0;
			}
			s.eintr = 1;
			blocks = timed = 0;
			for (j = 0; j < 3; j++) {
				int o = j < 2 ? s.op[0][j] : s.op[1][0];
				if (j >= s.n[0] && j < 2)
					continue;
				blocks += o == 1;
				timed += o == 2;
			}
		}
		s.idle = e == 1;
		s.timeout = timed ? 30 : 0;
		s.timers = timed ? 1 : 0;
		s.prefill = room * sl < 3 ? 0 : size[i] < 2048 ? 0 : 1;
		s.cmode = c == 2;
		s.reads = c == 2 ? 2 : c;
		/* blind reads do not serve the blocked ones for ever */
		if (c == 2 && blocks)
			continue;
		add(s);
	}
	/* more producers than room: each blocked one is served */
	for (i = 0; i < 6; i++)
	for (c = 0; c < 2; c++) {
		struct scn s = { 1, size[i], 0, 3, { 1, 1, 1 },
			{ { 1 }, { 1 }, { 1 } }, 0, 0, 3, 0, 0 };
		s.op[1][0] = c;
		s.reads = 0;
		s.eintr = mc_thorough ? 1 : 0;
		add(s);
	}
	for (i = 0; i < 6; i++)
		for (sl = 1; sl <= 2; sl++) {
			static struct seq q[12], qe[12];
			static char nm[40];
			q[i * 2 + sl - 1] = (struct seq){ sl, size[i], 0 };
			sprintf(nm, "seq/s%d/size%d", sl, size[i]);
			mc_explore(nm, sequences, &q[i * 2 + sl - 1]);
			qe[i * 2 + sl - 1] = (struct seq){ sl, size[i], 1 };
			sprintf(nm, "errors/s%d/size%d", sl, size[i]);
			mc_explore(nm, sequences, &qe[i * 2 + sl - 1]);
		}
	for (i = 0; i < 16; i++) {
		static const int s2[] = { 1, 3, 2048, 4095 };
		static struct two q[16];
		static char nm[40];
		q[i] = (struct two){ { s2[i % 4], s2[i / 4] } };
		sprintf(nm, "two/%d/%d", q[i].size[0], q[i].size[1]);
		mc_explore(nm, two, &q[i]);
	}
	mc_explore("cuts/1000", cuts, (void *)1000);
	mc_explore("cuts/4095", cuts, (void *)4095);
	for (i = 0; i < 4; i++) {
		static char nm[40];
		sprintf(nm, "history/%d", (int)i);
		mc_explore(nm, history, (void *)(intptr_t)i);
	}
	for (i = 0; i < 8; i++) {
		char nm[30];
		sprintf(nm, "every size/%d", i);
		mc_explore(nm, every_size, (void *)(uintptr_t)i);
	}
	mc_explore("creation", creation, NULL);
	for (sl = 1; sl <= 4; sl *= 2) {
		static char nm[40];
		sprintf(nm, "conformance/%d", sl);
		mc_explore(nm, conformance, (void *)(intptr_t)sl);
	}
	mc_sample("2 producers (blocking, 4095 bytes) || poll, read; pipe of "
		  "one page; an interruption at each call: all interleavings");
	return mc_end();
}
