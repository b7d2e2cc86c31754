/* C23: file events: all sequences of events, arrivals and failures */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include <futils/inotify.h>

/* ---- the events pushed so far, and those delivered ---- */
static int fd, pushed, got, in_call, cb_pushes, cb_destroy, limit;
static int alike;	/* events of the same length are the same */
static struct ev { int wd; uint32_t mask, cookie, len; int id; } evs[VK_INO_EVS];
static char data_tag;

static void fill_name(char *p, uint32_t len, int id)
{
	uint32_t i;
	memset(p, 0, len);
	/* the kernel pads with null bytes: all lengths of names in turn */
	for (i = 0; i + 1 + (id % 16 < 15 ? id % 15 : 0) < len; i++)
		p[i] = 'a' + (i * 7 + id * 5) % 26;
}

static void push(uint32_t len)
{
	static const uint32_t masks[] = { 0x100, 0x2, 0x4000, 0x40000200,
		0x80000000, 0xffffffff, 0x8000 };
	struct vk_ino_ev *q = &vk_ino_q[vk_ino_tail];
	int k = alike ? (int)len / 16 % 5 : pushed;
	struct ev *e = &evs[pushed];
	if ((vk_ino_tail + 1) % VK_INO_EVS == vk_ino_head || pushed == VK_INO_EVS)
		mc_broken("too many events");
	e->id = k;
	e->wd = k % 5 == 2 ? -1 : k % 5 == 3 ? 0x7fffffff : k + 1;
	e->mask = masks[k % 7];
	e->cookie = k % 3 == 1 ? 0xffffffff - k : k * 0x1010101;
	e->len = len;
	q->wd = e->wd;
	q->mask = e->mask;
	q->cookie = e->cookie;
	q->len = len;
	fill_name(q->name, len, k);
	vk_ino_tail = (vk_ino_tail + 1) % VK_INO_EVS;
	pushed++;
}

static const uint32_t lens[] = { 16, 0, 256, 32, 240, 208, 224 };

static void on_event(struct inotify_event *ev, void *data)
{
	char name[272];
	struct ev *e = &evs[got];
	CHECK(in_call, "called back after the processing");
	CHECK(data == &data_tag, "the user pointer is %p", data);
	CHECK(got < pushed, "an event more than the %d which happened is "
	      "delivered", pushed);
	if (limit < 0)
		limit = pushed;
	CHECK(got < limit, "event %d, which happened during the callbacks, is "
	      "delivered by the same call", got);
	fill_name(name, e->len, e->id);
	CHECK(ev->wd == e->wd && ev->mask == e->mask && ev->cookie == e->cookie
	      && ev->len == e->len, "event %d is delivered as watch %d mask %#x "
	      "cookie %#x length %u and is %d %#x %#x %u", got, ev->wd,
	      ev->mask, ev->cookie, ev->len, e->wd, e->mask, e->cookie,
	      e->len);
	CHECK(!memcmp(ev->name, name, e->len), "the name of event %d (%u bytes)"
	      " is altered", got, e->len);
	CHECK(((uintptr_t)ev & 3) == 0, "event %d is not aligned", got);
	got++;
	if (cb_pushes > 0) {
		int k = mc_choose(3, "arrives in the callback");
		if (k) {
			cb_pushes--;
			mc_log("event of %u during the callback", lens[k]);
			push(lens[k]);
		}
	}
	if (cb_destroy && got == cb_destroy) {
		inotify_destroy(fd);
		fd = -1;
	}
	errno = 0x1234;	/* a callback may do anything */
}

static int arrivals;
static void on_call(const char *when)
{
	int k;
	if (!arrivals)
		return;
	k = mc_choose(4, when);
	if (k) {
		arrivals--;
		mc_log("event of %u arrives before %s", lens[k], when);
		push(lens[k]);
		if (k == 3)
			push(lens[5]);
	}
}

static void process(void)
{
	int before = got, pending = pushed, done = vk_faults_done;
	mc_count_transitions(1);
	in_call = 1;
	limit = -1;
	inotify_process_fd(fd, on_event, &data_tag);
	in_call = 0;
	mc_n_nontrivial++;
	if (vk_faults_done == done)
		CHECK(got >= pending, "%d events of the %d pending ones are "
		      "delivered", got - before, pending - before);
	CHECK(!vk_mem_live, "%d blocks leaked", vk_mem_live);
}

static void start(void)
{
	vk_ino_hook = NULL;
	pushed = got = arrivals = cb_pushes = cb_destroy = 0;
	fd = inotify_create("/x", IN_CREATE);
	if (fd < 0)
		mc_fail("inotify_create fails");
}

static void finish(void)
{
	arrivals = cb_pushes = 0;
	vk_fault_mask = 0;
	process();
	CHECK(got == pushed, "only %d events of %d were ever delivered", got,
	      pushed);
	process();	/* none is pending: neither blocks nor calls back */
	inotify_destroy(fd);
	CHECK(!vk_fd_open_count(), "the descriptor is not released");
}

/* events of all lengths; then arrivals at every point; then a failure */
struct job { int n, nl, arr, cb, faults; };
static void s_seq(void *arg)
{
	struct job *j = arg;
	int i, k;
	start();
	for (i = 0; i < j->n; i++)
		push(lens[mc_choose(j->nl, "length")]);
	vk_ino_hook = on_call;
	arrivals = j->arr;
	cb_pushes = j->cb;
	vk_fault_mask = VKM(VKF_MALLOC) | VKM(VKF_READ) | VKM(VKF_IOCTL);
	vk_fault_budget = j->faults;
	if (j->faults == 1) {
		static const int read_e[] = { EINTR, EAGAIN, EIO, EBADF,
			EINVAL, EFAULT, EISDIR, EPERM, ENOMEM, ENOSYS, 0 };
		static const int ioctl_e[] = { EIO, EBADF, EINVAL, ENOTTY,
			EFAULT, EINTR, EAGAIN, EPERM, ENOSYS, 0 };
		vk_errs[VKF_READ] = read_e;
		vk_errs[VKF_IOCTL] = ioctl_e;
	}
	mc_case(j->n, j->arr, j->cb, j->faults);
	for (k = 0; k < 3; k++) {
		process();
		mc_outcome(mc_mix(got, vk_faults_done * 8 + k));
	}
	finish();
	mc_sample("%d events of %d lengths, %d arrivals, %d in callbacks, %d "
		  "failures", j->n, j->nl, j->arr, j->cb, j->faults);
}

/* every total around the sizes a buffer may have: so many events of one
 * length, then one or two of another */
static void s_totals(void *arg)
{
	int a = *(int *)arg, b, n, m;
	for (b = 0; b <= 256; b += 16)
		for (n = 0; n <= 40; n++)
			for (m = 0; m <= 2; m++) {
				int i;
				start();
				for (i = 0; i < n; i++)
					push(a);
				for (i = 0; i < m; i++)
					push(b);
				if (b & 16)
					push(0);
				mc_case(a, b, n, m);
				process();
				CHECK(got == pushed, "%d events of %d delivered",
				      got, pushed);
				push(b);
				push(a);
				finish();
			}
}

static void s_many(void *arg)
{
	static const int ns[] = { 63, 64, 65, 127, 128, 129, 240, 241, 255, 256,
		257, 511, 512, 1000, 1024, 2047, 2048, 2049, 4096, 4097, 4190, 8192, 16383, 16384,
		16385, 32768, 40050, 65535, 65536, 66650 };
	int i, k, v;
	for (k = 0; k < 30; k++)
		for (v = 0; v < 4; v++) {
			start();
			for (i = 0; i < ns[k]; i++)
				push(v == 0 ? 0 : v == 1 ? 16 : v == 2 ? 256 :
				     i * 7 % 17 * 16);
			mc_case(ns[k], v, 1, 9);
			process();
			CHECK(got == pushed, "%d events of %d delivered", got,
			      pushed);
			if (pushed < 66650) {
				push(16);
				finish();
			} else
				inotify_destroy(fd);
		}
}

/* events which cannot be told from earlier ones are events all the same */
static void s_alike(void *arg)
{
	static const uint32_t al[] = { 16, 0, 32 };
	int n = *(int *)arg, i;
	alike = 1;
	start();
	for (i = 0; i < n; i++) {
		push(al[mc_choose(3, "event")]);
		if (i + 1 < n && mc_choose(2, "process")) {
			process();
			CHECK(got == pushed, "%d events of %d are delivered",
			      got, pushed);
		}
	}
	mc_case(n, 0, 0, 14);
	process();
	CHECK(got == pushed, "%d events of %d are delivered", got, pushed);
	finish();
	alike = 0;
}

/* the callback releases the descriptor */
static void s_destroy(void *arg)
{
	int n = 1 + mc_choose(4, "events"), i;
	vk_fd_base = mc_choose(2, "descriptors") ? 0 : 700;
	start();
	for (i = 0; i < n; i++)
		push(lens[mc_choose(3, "length")]);
	cb_destroy = 1 + mc_choose(n, "destroyed in");
	mc_case(n, cb_destroy, 0, 10);
	process();
	CHECK(fd == -1 && !vk_fd_open_count(), "the descriptor is open");
	process();
	inotify_destroy(fd);
}

/* the callback processes the events of another descriptor, in the callback of
 * which those of the first one, or of a third one, may be processed too */
static struct other { int fd, sent, seen, depth; } others[2];
static void push_other(int k, uint32_t len)
{
	struct vk_ino *q = &vk_inos[k + 1];
	struct vk_ino_ev *e = &q->q[q->tail];
	int id = others[k].sent++;
	e->wd = 1000 * (k + 1) + id;
	e->mask = 0x40 << k;
	e->cookie = 0x77770000 + id;
	e->len = len;
	memset(e->name, 0, len);
	if (len)
		memset(e->name, 'P' + k + id % 4, len - 1 - id % 15);
	q->tail = (q->tail + 1) % VK_INO_EVS;
}
static void nest(int k);
static void on_other(struct inotify_event *ev, void *data)
{
	struct other *o = data;
	int k = o - others, id = o->seen++;
	char name[272];
	CHECK(o == &others[0] || o == &others[1], "user pointer %p", data);
	if (k == 0)
		nest(1);
	memset(name, 0, sizeof(name));
	if (ev->len && ev->len <= 256)
		memset(name, 'P' + k + id % 4, ev->len - 1 - id % 15);
	CHECK(id < o->sent && ev->wd == 1000 * (k + 1) + id &&
	      ev->mask == 0x40u << k && ev->cookie == 0x77770000u + id &&
	      ev->len <= 256 && !memcmp(ev->name, name, ev->len),
	      "event %d of descriptor %d is delivered as watch %d mask %#x "
	      "cookie %#x length %u", id, k + 1, ev->wd, ev->mask, ev->cookie,
	      ev->len);
}
static void nest(int k)
{
	int c = mc_choose(3, "events of another descriptor"), i, want;
	static const uint32_t ol[] = { 32, 256 };
	if (!c)
		return;
	for (i = 0; i < c * 2; i++)
		push_other(k, ol[c - 1]);
	mc_log("%d events of descriptor %d processed in the callback", c * 2,
	       k + 1);
	want = others[k].sent;
	inotify_process_fd(others[k].fd, on_other, &others[k]);
	CHECK(others[k].seen == want, "descriptor %d: %d events of %d are "
	      "delivered", k + 1, others[k].seen, want);
}
static void on_nested(struct inotify_event *ev, void *data)
{
	/* the event stays what it was during the nested call */
	nest(0);
	on_event(ev, data);
}
static void s_nested(void *arg)
{
	int n = *(int *)arg, i;
	start();
	for (i = 0; i < 2; i++) {
		others[i] = (struct other){ inotify_create("/y", IN_CREATE) };
		CHECK(others[i].fd >= 0, "inotify_create fails");
	}
	for (i = 0; i < n; i++)
		push(lens[mc_choose(3, "length")]);
	mc_case(n, 0, 0, 13);
	in_call = 1;
	limit = -1;
	inotify_process_fd(fd, on_nested, &data_tag);
	in_call = 0;
	CHECK(got == pushed, "%d events of %d are delivered", got, pushed);
	CHECK(!vk_mem_live, "%d blocks leaked", vk_mem_live);
	mc_n_nontrivial++;
	inotify_destroy(others[0].fd);
	inotify_destroy(others[1].fd);
	finish();
}

static void s_bad(void *arg)
{
	start();
	push(16);
	in_call = 0;
	limit = -1;
	mc_case(0, 0, 0, 11);
	inotify_process_fd(-1, on_event, NULL);
	inotify_process_fd(12345, on_event, NULL);
	inotify_process_fd(fd + 1, on_event, NULL);
	inotify_destroy(-1);
	finish();
	inotify_process_fd(fd, on_event, NULL);
	CHECK(!vk_mem_live, "leak");
}

/* the virtual queue against the real one: sizes announced and read */
static void s_real(void *arg)
{
	static char name[300], path[400], b1[8192], b2[8192];
	int rfd = inotify_init1(IN_NONBLOCK | IN_CLOEXEC), l, sz, w;
	uint64_t n = 0;
	if (rfd < 0 || (w = inotify_add_watch(rfd, ".", IN_CREATE)) < 0) {
		if (rfd >= 0)
			close(rfd);
		mc_log("no inotify here");
		return;
	}
	start();
	for (l = 1; l <= 255; l++) {
		int cr, cm, r1, r2, c;
		memset(name, 'a' + l % 26, l);
		name[l] = 0;
		snprintf(path, sizeof(path), "./%s", name);
		if ((c = open(path, O_CREAT | O_EXCL | O_WRONLY, 0600)) < 0)
			continue;
		close(c);
		unlink(path);
		pushed = got = 0;
		push((l + 1 + 15) / 16 * 16);
		memset(vk_ino_q[(vk_ino_tail + VK_INO_EVS - 1) % VK_INO_EVS].name,
		       0, 272);
		memcpy(vk_ino_q[(vk_ino_tail + VK_INO_EVS - 1) % VK_INO_EVS].name,
		       name, l);
		ioctl(rfd, FIONREAD, &cr);
		cm = 16 + (l + 1 + 15) / 16 * 16;
		if (cr != cm)
			mc_broken("real event of a name of %d: %d bytes, model "
				  "%d", l, cr, cm);
		for (sz = cr - 1; sz <= cr + 1; sz += 1) {
			r1 = read(rfd, b1, sz);
			r1 = r1 < 0 ? -errno : r1;
			r2 = vk_read(fd, b2, sz);
			r2 = r2 < 0 ? -errno : r2;
			if (r1 != r2)
				mc_broken("read of %d bytes for %d: really %d, "
					  "model %d", sz, cr, r1, r2);
			if (r1 > 0 && memcmp(b1 + 12, b2 + 12, r1 - 12))
				mc_broken("contents differ");
			n++;
			if (r1 > 0)
				break;
		}
	}
	close(rfd);
	mc_validated(n);
	mc_case(n, 0, 0, 12);
	mc_n_nontrivial++;
	inotify_destroy(fd);
}

int main(int argc, char **argv)
{
	static struct job jb[40];
	static int ids[20];
	static int nest_n[] = { 0, 1, 2, 3 };
	char name[60];
	int n = 0, i, k;
	mc_init(argc, argv);
	mc_set_reset(vk_reset);
#define JOB(...) do { jb[n] = (struct job){ __VA_ARGS__ }; \
	snprintf(name, sizeof(name), "events %d.%d arriving %d.%d failing %d", \
		 jb[n].n, jb[n].nl, jb[n].arr, jb[n].cb, jb[n].faults); \
	mc_explore(name, s_seq, &jb[n]); n++; } while (0)
	for (i = 0; i <= 4; i++) {
		JOB(i, 7, 0, 0, 0);
		JOB(i, i < 4 ? 5 : 3, 2, 0, 0);
		JOB(i, i < 4 ? 3 : 2, 1, 2, 0);
		JOB(i, i < 4 ? 5 : 3, 1, 0, 2);
		JOB(i, 3, 0, 1, 3);
	}
	if (mc_thorough) {
		JOB(5, 7, 0, 0, 0);
		JOB(6, 5, 1, 0, 0);
		JOB(4, 5, 3, 1, 1);
		JOB(3, 5, 2, 2, 2);
		JOB(5, 5, 1, 0, 2);
	}
	for (k = 0; k < 8; k++) {
		static int an[] = { 1, 2, 3, 4, 5, 6, 7, 8 };
		if (k == 7 && !mc_thorough)
			break;
		snprintf(name, sizeof(name), "alike %d", an[k]);
		mc_explore(name, s_alike, &an[k]);
	}
	for (k = 0; k <= 16; k++) {
		ids[k] = k * 16;
		snprintf(name, sizeof(name), "totals %d", k * 16);
		mc_explore(name, s_totals, &ids[k]);
	}
	mc_explore("many", s_many, NULL);
	mc_explore("destroyed", s_destroy, NULL);
	for (i = 1; i <= (mc_thorough ? 3 : 2); i++) {
		snprintf(name, sizeof(name), "nested %d", i);
		mc_explore(name, s_nested, &nest_n[i]);
	}
	mc_explore("bad", s_bad, NULL);
	mc_explore("real", s_real, NULL);
	return mc_end();
}
