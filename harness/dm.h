/* helpers for the dynmbox drivers */
#ifndef DM_H
#define DM_H
#include "mc.h"
#include "vk.h"
#include "fibers.h"
#include <errno.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <futils/dynmbox.h>

#define CAP 65536u
#define MAXMSG 65532u
#define MAXLOG 64

static struct dynmbox *box;
static uint8_t *rbuf;			/* exactly the maximum size, arena */
static uint8_t wbuf[MAXMSG + 8];

/* the model: a queue of accepted messages */
static struct { uint32_t id, len; } q[20000];
static int q_in, q_out;			/* accepted, read */
static uint32_t next_id;

static inline uint8_t pat(uint32_t id, uint32_t j)
{
	return (uint8_t)(id * 37 + j * 11 + (j >> 8) * 5 + 1);
}

static inline void fill(uint8_t *b, uint32_t id, uint32_t len)
{
	uint32_t j;
	for (j = 0; j < len; j++)
		b[j] = pat(id, j);
}

static size_t q_used(void)
{
	size_t n = 0;
	int i;
	for (i = q_out; i < q_in; i++)
		n += q[i].len + 4;
	return n;
}

static int dm_slots;			/* pages of the pipe, 0: 16 */

static void dm_new(size_t max)
{
	vk_use_arena = 1;
	vk_reset();
	if (dm_slots)
		vk_pipe_slots = dm_slots;
	tsan_enabled = 0;
	q_in = q_out = 0;
	next_id = 1;
	box = dynmbox_new(max);
	CHECK(box, "dynmbox_new(%zu) failed", max);
	CHECK(dynmbox_get_max_size(box) == (ssize_t)max, "maximum size");
	rbuf = vk_malloc(max);
	tsan_enabled = 1;
}

/* check a successful read against the oldest accepted message */
static void dm_check_read(ssize_t r)
{
	uint32_t j;
	CHECK(q_out < q_in, "a message of %zd bytes was read, none is queued",
	      r);
	CHECK(r == (ssize_t)q[q_out].len, "read %zd bytes, the oldest message "
	      "(number %u) has %u", r, q[q_out].id, q[q_out].len);
	for (j = 0; j < q[q_out].len; j++)
		CHECK(rbuf[j] == pat(q[q_out].id, j),
		      "message %u: byte %u of %u differs", q[q_out].id, j,
		      q[q_out].len);
	q_out++;
}

static int dm_push(uint32_t len, int block, unsigned timeout)
{
	int r;
	fill(wbuf, next_id, len);
	/* the message may be visible to the reader before the return */
	q[q_in].id = next_id;
	q[q_in].len = len;
	q_in++;
	r = block ? dynmbox_push_block(box, wbuf, len, timeout) :
		dynmbox_push(box, wbuf, len);
	sched_note(r);
	mc_log("push%s #%u of %u = %d", block ? "_block" : "", next_id, len,
	       r);
	if (r) {
		q_in--;
		CHECK(q_out <= q_in, "a message whose push failed was read");
	}
	next_id++;
	return r;
}

static ssize_t dm_peek(void)
{
	ssize_t r = dynmbox_peek(box, rbuf);
	sched_note(r);
	mc_log("peek = %zd", r);
	if (r >= 0)
		dm_check_read(r);
	else
		CHECK(r == -EAGAIN, "peek: %zd", r);
	return r;
}

static int dm_poll(int timeout)
{
	struct pollfd p = { dynmbox_get_read_fd(box), POLLIN, 0 };
	return vk_poll(&p, 1, timeout);
}

static void dm_quiescent(void)
{
	int rd = vk_fd_readable(dynmbox_get_read_fd(box));
	CHECK(!!rd == (q_in > q_out), "descriptor %sreadable with %d messages "
	      "queued", rd ? "" : "not ", q_in - q_out);
}

static void dm_drain(void)
{
	while (q_out < q_in) {
		ssize_t r = dm_peek();
		CHECK(r >= 0, "%d messages lost", q_in - q_out);
	}
	CHECK(dm_peek() == -EAGAIN, "a message too many");
}

static void dm_end(void)
{
	dynmbox_destroy(box);
	vk_free(rbuf);
	CHECK(vk_mem_live == 0, "memory leak");
	CHECK(vk_fd_open_count() == 0, "descriptor leak");
	CHECK(!sched_mutexes_held(), "mutex left locked");
}

/* move the ring cursors to CAP - k */
static void dm_offset(uint32_t k)
{
	tsan_enabled = 0;
	CHECK(dm_push(CAP - k - 4, 0, 0) == 0, "push in an empty mailbox");
	CHECK(dm_peek() >= 0, "peek");
	tsan_enabled = 1;
}

/* two mailboxes used in turns by one thread; fd: check the descriptors */
static struct { uint32_t len; int id; } dm_q2[2][40];
static int dm_in2[2], dm_out2[2];

static void dm_two(const size_t *max, int depth, int fd)
{
	struct dynmbox *b[2];
	uint8_t *rb[2];
	int i, k, t, r, op, id = 0;
	uint32_t j, len;
	ssize_t n;
	k = mc_choose(2, "descriptors") ? 0 : 700;
	vk_use_arena = 1;
	vk_reset();
	vk_fd_base = k;
	tsan_enabled = 0;
	for (t = 0; t < 2; t++) {
		dm_in2[t] = dm_out2[t] = 0;
		b[t] = dynmbox_new(max[t]);
		CHECK(b[t], "dynmbox_new(%zu) failed", max[t]);
		rb[t] = vk_malloc(max[t]);
	}
	tsan_enabled = 1;
	for (i = 0; i < depth || dm_in2[0] > dm_out2[0] ||
	     dm_in2[1] > dm_out2[1]; i++) {
		if (i < depth) {
			op = mc_choose(10, "operation");
			t = op / 5;
			op %= 5;
		} else {
			t = dm_in2[0] == dm_out2[0];
			op = 3;
		}
		if (op < 3) {
			len = op == 0 ? 0 : op == 1 ? (max[t] < 7 ? max[t] :
						       7) : max[t];
			fill(wbuf, ++id, len);
			r = dynmbox_push(b[t], wbuf, len);
			mc_log("box %d: push of %u = %d", t, len, r);
			if (r == 0) {
				dm_q2[t][dm_in2[t]].len = len;
				dm_q2[t][dm_in2[t]++].id = id;
			} else {
				CHECK(r == -EAGAIN, "mailbox %d: push of %u: "
				      "%d", t, len, r);
				CHECK(dm_in2[t] > dm_out2[t], "mailbox %d: "
				      "push of %u in the empty mailbox refused",
				      t, len);
			}
		} else if (op == 3) {
			n = dynmbox_peek(b[t], rb[t]);
			mc_log("box %d: peek = %zd", t, n);
			if (dm_in2[t] == dm_out2[t]) {
				CHECK(n == -EAGAIN, "mailbox %d: peek when "
				      "empty: %zd", t, n);
			} else {
				k = dm_out2[t]++;
				CHECK(n == (ssize_t)dm_q2[t][k].len, "mailbox "
				      "%d: peek: %zd, the oldest message has "
				      "%u bytes", t, n, dm_q2[t][k].len);
				for (j = 0; j < n; j++)
					CHECK(rb[t][j] ==
					      pat(dm_q2[t][k].id, j),
					      "mailbox %d: byte %u of %zd "
					      "differs", t, j, n);
			}
		} else {
			/* the other stays as it is */
			dynmbox_destroy(b[t]);
			b[t] = dynmbox_new(max[t]);
			mc_log("box %d: destroyed, created", t);
			CHECK(b[t], "dynmbox_new(%zu) failed", max[t]);
			dm_in2[t] = dm_out2[t] = 0;
		}
		for (t = 0; t < 2; t++) {
			CHECK(dynmbox_get_max_size(b[t]) == (ssize_t)max[t],
			      "mailbox %d: maximum size", t);
			CHECK(!fd || !!vk_fd_readable(dynmbox_get_read_fd(
				b[t])) == (dm_in2[t] > dm_out2[t]),
			      "mailbox %d: descriptor with %d messages queued",
			      t, dm_in2[t] - dm_out2[t]);
		}
	}
	mc_outcome(mc_mix(id, dm_in2[0] * 64 + dm_in2[1]));
	for (t = 0; t < 2; t++) {
		CHECK(dynmbox_peek(b[t], rb[t]) == -EAGAIN, "mailbox %d: a "
		      "message too many", t);
		dynmbox_destroy(b[t]);
		vk_free(rb[t]);
	}
	CHECK(vk_mem_live == 0, "memory leak");
	CHECK(vk_fd_open_count() == 0, "descriptor leak");
}

static const size_t dm_two_max[4][2] = { { 5, 100 }, { 100, 2000 },
	{ 0, 65532 }, { 4000, 4000 } };
#endif
