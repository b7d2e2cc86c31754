/* C24: descriptors: flags, and creation and destruction of every object */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <unistd.h>
#include <futils/dynmbox.h>
#include <futils/fdutils.h>
#include <futils/inotify.h>
#include <futils/mbox.h>

/* ---- flags ---- */
static const int bits[] = { O_APPEND, O_NONBLOCK, O_ASYNC, O_DIRECT, O_NOATIME };
#define SETTABLE (O_APPEND | O_NONBLOCK | O_ASYNC | O_DIRECT | O_NOATIME)
static const int odd[] = { 0, O_RDWR, O_CLOEXEC, O_SYNC, O_CREAT | O_TRUNC,
	O_DIRECTORY, 0x40000000, -1 };

static int flags_of(int k)
{
	int i, f = 0;
	for (i = 0; i < 5; i++)
		if (k >> i & 1)
			f |= bits[i];
	return f;
}

static void two_fds(int fds[2])
{
	vk_reset();
	if (vk_pipe_create(fds) < 0)
		mc_broken("pipe");
}

static const int fcntl_errs[] = { EPERM, EINVAL, EBADF, EINTR, EACCES,
	EAGAIN, EMFILE, ENOTTY, ENOSYS, EOPNOTSUPP, ENOLCK, EFAULT, EIO, 0 };

static void s_add(void *arg)
{
	int acc, prior, add, o, fds[2], cl, base;
	for (acc = 0; acc < 3; acc++)
		for (prior = 0; prior < 32; prior++)
			for (add = 0; add < 32; add++)
				for (o = 0; o < 8; o++)
					for (cl = 0; cl < 2; cl++) {
		struct vk_fd *f, *g, before;
		int was, want, r;
		two_fds(fds);
		base = fds[add & 1];
		f = vk_fd_get(base);
		g = vk_fd_get(fds[!(add & 1)]);
		was = acc | flags_of(prior) | (o & 1 ? O_SYNC : 0) | 0100000;
		f->flags = was;
		f->fdflags = cl;
		before = *g;
		want = was | ((flags_of(add) | odd[o]) & SETTABLE);
		mc_case(was, flags_of(add) | odd[o], cl, 0);
		r = fd_add_flags(base, flags_of(add) | odd[o]);
		mc_count_transitions(1);
		mc_n_nontrivial++;
		CHECK(r == 0, "adding %#o to %#o returns %d", flags_of(add) |
		      odd[o], was, r);
		CHECK(f->flags == want, "adding %#o to %#o gives %#o and not "
		      "%#o", flags_of(add) | odd[o], was, f->flags, want);
		CHECK(f->fdflags == cl, "adding %#o to %#o changes close-on-exec",
		      flags_of(add) | odd[o], was);
		CHECK(g->flags == before.flags && g->fdflags == before.fdflags,
		      "the flags of another descriptor changed");
	}
}

static void s_cloexec(void *arg)
{
	int prior, fl, fds[2], r;
	for (prior = 0; prior < 256; prior++)
		for (fl = 0; fl < 32; fl++) {
			struct vk_fd *f, *g;
			two_fds(fds);
			f = vk_fd_get(fds[fl & 1]);
			g = vk_fd_get(fds[!(fl & 1)]);
			f->fdflags = prior;
			g->fdflags = ~prior & 255;
			f->flags = flags_of(fl);
			mc_case(prior, fl, 0, 1);
			mc_count_transitions(3);
			mc_n_nontrivial++;
			r = fd_has_close_on_exec(fds[fl & 1]);
			CHECK(r == (prior & FD_CLOEXEC), "flags %#x: "
			      "fd_has_close_on_exec returns %d", prior, r);
			r = fd_set_close_on_exec(fds[fl & 1]);
			CHECK(r == 0, "fd_set_close_on_exec returns %d", r);
			CHECK(f->fdflags == (prior | FD_CLOEXEC) &&
			      f->flags == flags_of(fl), "close-on-exec added to "
			      "%#x (status %#o) gives %#x, %#o", prior,
			      flags_of(fl), f->fdflags, f->flags);
			CHECK(g->fdflags == (~prior & 255), "another descriptor "
			      "changed");
			r = fd_has_close_on_exec(fds[fl & 1]);
			CHECK(r == 1, "fd_has_close_on_exec returns %d after "
			      "it was set", r);
		}
}

static void s_refused(void *arg)
{
	static const int bad[] = { -1, 5, INT_MAX, INT_MIN, 799 };
	int fds[2], fn = mc_choose(3, "call"), b = mc_choose(8, "descriptor");
	int fd, r, done, fl, cl;
	two_fds(fds);
	fd = b < 2 ? fds[b] : b < 7 ? bad[b - 2] : fds[0];
	if (b == 7)
		vk_close(fds[0]);
	else if (b < 2) {
		vk_fd_get(fd)->fdflags = mc_choose(2, "prior");
		vk_errs[VKF_FCNTL] = fcntl_errs;
		vk_fault_mask = VKM(VKF_FCNTL);
		vk_fault_budget = 2;
	}
	fl = b < 2 ? vk_fd_get(fd)->flags : 0;
	cl = b < 2 ? vk_fd_get(fd)->fdflags : 0;
	done = vk_faults_done;
	mc_case(fn, b, cl, 2);
	r = fn == 0 ? fd_set_close_on_exec(fd) : fn == 1 ?
		fd_has_close_on_exec(fd) : fd_add_flags(fd, O_NONBLOCK);
	mc_count_transitions(1);
	mc_n_nontrivial++;
	mc_outcome(r);
	if (fn == 1) {
		if (b >= 2)
			CHECK(r == 0, "a closed descriptor has close-on-exec: "
			      "%d", r);
		else if (vk_faults_done == done || r)
			CHECK(r == cl, "fd_has_close_on_exec returns %d", r);
		return;
	}
	if (b >= 2) {
		CHECK(r == -EBADF, "the bad descriptor %d gives %d", fd, r);
		return;
	}
	if (vk_faults_done > done && r) {
		CHECK(r == -vk_last_fault_errno, "%s returns %d and the error "
		      "was %d", fn ? "fd_add_flags" : "fd_set_close_on_exec",
		      r, -vk_last_fault_errno);
		CHECK(vk_fd_get(fd)->flags == fl && vk_fd_get(fd)->fdflags ==
		      cl, "flags changed by a refused call");
		return;
	}
	/* no failure, or an interruption and a second attempt */
	CHECK(r == 0 && !vk_hard_sites && vk_fd_get(fd)->flags ==
	      (fn ? fl | O_NONBLOCK : fl) && vk_fd_get(fd)->fdflags ==
	      (fn ? cl : cl | FD_CLOEXEC),
	      "%s returns %d%s and the flags %#o, %#x become %#o, %#x",
	      fn ? "fd_add_flags" : "fd_set_close_on_exec", r, vk_hard_sites ?
	      " despite a failure" : "", fl, cl, vk_fd_get(fd)->flags,
	      vk_fd_get(fd)->fdflags);
}

/* the model of fcntl against the real one, on a pipe */
static void s_real(void *arg)
{
	int prior, add, o, rp[2], vp[2], k;
	uint64_t n = 0;
	two_fds(vp);
	for (prior = 0; prior < 32; prior++)
		for (add = 0; add < 32; add++)
			for (o = 0; o < 6; o++) {
				int a, b;
				if (pipe(rp))
					mc_broken("real pipe");
				k = o & 1;
				vk_fd_get(vp[k])->flags = k ? O_WRONLY : O_RDONLY;
				vk_fd_get(vp[k])->fdflags = 0;
				fcntl(rp[k], F_SETFL, flags_of(prior));
				vk_fcntl(vp[k], F_SETFL, flags_of(prior));
				a = fcntl(rp[k], F_SETFL, flags_of(add) | odd[o]);
				b = vk_fcntl(vp[k], F_SETFL, flags_of(add) | odd[o]);
				if (a != b)
					mc_broken("F_SETFL: %d %d", a, b);
				a = fcntl(rp[k], F_GETFL);
				b = vk_fcntl(vp[k], F_GETFL);
				if (a != b)
					mc_broken("F_GETFL after %#o: %#o, model %#o",
						  flags_of(add) | odd[o], a, b);
				fcntl(rp[k], F_SETFD, o & 2 ? FD_CLOEXEC : 0);
				vk_fcntl(vp[k], F_SETFD, o & 2 ? FD_CLOEXEC : 0);
				a = fcntl(rp[k], F_GETFD);
				b = vk_fcntl(vp[k], F_GETFD);
				if (a != b)
					mc_broken("F_GETFD %d %d", a, b);
				close(rp[0]);
				close(rp[1]);
				n++;
			}
	mc_validated(n);
	mc_case(n, 0, 0, 3);
	mc_n_nontrivial++;
}

/* ---- objects ---- */
enum { MBOX, DYN, INO };
static const char *kinds[] = { "mbox", "dynmbox", "inotify" };
static struct obj { int live, kind, fd; void *p; uint64_t fds; } objs[4];

static uint64_t open_set(void)
{
	uint64_t s = 0;
	int i;
	for (i = 0; i < VK_FD_FEW; i++)
		if (vk_fds[i].type != VKT_NONE)
			s |= 1ull << i;
	return s;
}

/* the descriptors of an object: right ones, with the right flags */
static void check_fds(struct obj *o)
{
	int i, n = 0, r = 0;
	for (i = 0; i < VK_FD_FEW; i++) {
		struct vk_fd *f = &vk_fds[i];
		if (!(o->fds >> i & 1))
			continue;
		n++;
		CHECK(f->type != VKT_NONE, "a descriptor of a live %s was "
		      "closed", kinds[o->kind]);
		CHECK(f->fdflags & FD_CLOEXEC, "descriptor %d of the %s is not "
		      "close-on-exec", n, kinds[o->kind]);
		if (o->kind != INO)
			CHECK(f->flags & O_NONBLOCK, "the %s end of the %s is "
			      "blocking", f->type == VKT_PIPE_R ? "read" :
			      "write", kinds[o->kind]);
		if (i + vk_fd_base == o->fd)
			r = f->type == VKT_PIPE_R || f->type == VKT_INOTIFY;
		CHECK(!(f->flags & (O_APPEND | O_ASYNC | O_DIRECT)),
		      "the %s has the status flags %#o", kinds[o->kind],
		      f->flags);
	}
	CHECK(r, "the descriptor %d given by the %s is not its own reading one",
	      o->fd, kinds[o->kind]);
}

static int create(struct obj *o, int kind, size_t size)
{
	uint64_t before = open_set();
	int mem = vk_mem_live, done = vk_faults_done, full;
	o->kind = kind;
	o->fd = -1;
	o->p = NULL;
	vk_ino_path[0] = 0;
	full = vk_fd_open_count() + (kind == INO ? 1 : 2) > vk_fd_limit;
	mc_log("create %s", kinds[kind]);
	mc_count_transitions(1);
	if (kind == MBOX) {
		o->p = mbox_new(size);
		o->live = !!o->p;
	} else if (kind == DYN) {
		o->p = dynmbox_new(size);
		o->live = !!o->p;
	} else {
		o->fd = inotify_create("/some/path", IN_CREATE | IN_ISDIR | size);
		o->live = o->fd >= 0;
		CHECK(o->live || o->fd == -1, "inotify_create returns %d", o->fd);
	}
	mc_n_nontrivial++;
	o->fds = open_set() & ~before;
	CHECK((open_set() & before) == before, "creating a %s closes a "
	      "descriptor of another object", kinds[kind]);
	if (!o->live) {
		CHECK(!o->fds, "the failed creation of a %s leaves a descriptor "
		      "open", kinds[kind]);
		CHECK(vk_mem_live == mem, "the failed creation of a %s leaks",
		      kinds[kind]);
		CHECK(vk_faults_done > done || full || (kind == MBOX &&
		      (!size || size >= PIPE_BUF)) || (kind == DYN && size >
		      DYNMBOX_MAX_SIZE), "the creation of a %s of %zu fails and "
		      "nothing was wrong", kinds[kind], size);
		return 0;
	}
	CHECK(kind == INO || vk_faults_done == done, "a %s is created in spite "
	      "of a failure", kinds[kind]);
	if (kind == MBOX) {
		CHECK(size && size < PIPE_BUF, "a mailbox of %zu is created",
		      size);
		o->fd = mbox_get_read_fd(o->p);
	} else if (kind == DYN) {
		CHECK(size <= DYNMBOX_MAX_SIZE, "a mailbox of %zu is created",
		      size);
		o->fd = dynmbox_get_read_fd(o->p);
	} else {
		CHECK(vk_faults_done == done, "the creation succeeds in spite of a "
		      "failure");
		CHECK(!strcmp(vk_ino_path, "/some/path") && vk_ino_mask ==
		      (IN_CREATE | IN_ISDIR | size), "the watch is on \"%s\" "
		      "for %#x", vk_ino_path, vk_ino_mask);
	}
	CHECK(__builtin_popcountll(o->fds) == (kind == INO ? 1 : 2),
	      "a %s has %d descriptors", kinds[kind],
	      __builtin_popcountll(o->fds));
	check_fds(o);
	return 1;
}

static void destroy(struct obj *o)
{
	uint64_t before = open_set();
	mc_log("destroy %s", kinds[o->kind]);
	mc_count_transitions(1);
	if (o->kind == MBOX)
		mbox_destroy(o->p);
	else if (o->kind == DYN)
		dynmbox_destroy(o->p);
	else
		inotify_destroy(o->fd);
	CHECK(!(open_set() & o->fds), "a descriptor of the %s is still open "
	      "after its destruction", kinds[o->kind]);
	CHECK(open_set() == (before & ~o->fds), "the destruction of the %s "
	      "changes other descriptors", kinds[o->kind]);
	o->live = 0;
}

static void use(struct obj *o)
{
	static char msg[70000];
	uint64_t before = open_set();
	if (o->kind == MBOX)
		mbox_push(o->p, msg);
	else if (o->kind == DYN)
		dynmbox_push(o->p, msg, 8);
	CHECK(open_set() == before, "a push changes the descriptors");
	if (o->kind == MBOX && mc_choose(2, "read"))
		mbox_peek(o->p, msg);
	else if (o->kind == DYN && mc_choose(2, "read"))
		dynmbox_peek(o->p, msg);
	CHECK(open_set() == before, "a read changes the descriptors");
	check_fds(o);
}

static const int mem_err[] = { ENOMEM, 0 };
static const int pipe_err[] = { EMFILE, ENFILE, 0 };
static const int ino_err[] = { ENOENT, ENOSPC, EMFILE, 0 };
static const int close_err[] = { EINTR, EIO, 0 };

/* sequences of creations, uses and destructions, with failures */
struct job { int depth, faults, base, limit; };
static void s_objects(void *arg)
{
	struct job *j = arg;
	int d, i;
	vk_fd_base = j->base;
	memset(objs, 0, sizeof(objs));
	vk_fd_limit = j->limit;
	vk_errs[VKF_MALLOC] = mem_err;
	vk_errs[VKF_PIPE] = pipe_err;
	vk_errs[VKF_INOTIFY] = ino_err;
	vk_errs[VKF_CLOSE] = close_err;
	if (j->faults == 1) {
		static const int pipe_all[] = { EMFILE, ENFILE, ENOMEM, EFAULT,
			EINVAL, EINTR, EPERM, ENOSYS, EAGAIN, 0 };
		static const int ino_all[] = { ENOENT, ENOSPC, EMFILE, ENFILE,
			ENOMEM, EACCES, ENOTDIR, ENAMETOOLONG, EBADF, EINVAL,
			EEXIST, EFAULT, ENOSYS, EPERM, ELOOP, EINTR, 0 };
		static const int close_all[] = { EINTR, EIO, ENOSPC, EDQUOT,
			0 };
		vk_errs[VKF_PIPE] = pipe_all;
		vk_errs[VKF_INOTIFY] = ino_all;
		vk_errs[VKF_CLOSE] = close_all;
	}
	vk_fault_mask = VKM(VKF_MALLOC) | VKM(VKF_PIPE) | VKM(VKF_INOTIFY) |
		VKM(VKF_CLOSE);
	vk_fault_budget = j->faults;
	mc_case(j->depth, j->faults, j->base, j->limit);
	for (d = 0; d < j->depth; d++) {
		int k, free_ = -1, nl = 0, live[3];
		for (i = 2; i >= 0; i--)
			if (objs[i].live)
				live[nl++] = i;
			else
				free_ = i;
		k = mc_choose((free_ >= 0 ? 3 : 0) + 2 * nl + 1, "operation");
		if (!k)
			break;
		k--;
		if (free_ >= 0) {
			if (k < 3) {
				create(&objs[free_], k, 16);
				goto next;
			}
			k -= 3;
		}
		if (k < nl)
			destroy(&objs[live[k]]);
		else
			use(&objs[live[k - nl]]);
next:
		for (i = 0; i < 3; i++)
			if (objs[i].live)
				check_fds(&objs[i]);
	}
	for (i = 0; i < 3; i++)
		if (objs[i].live)
			destroy(&objs[i]);
	CHECK(!vk_fd_open_count(), "%d descriptors are open at the end",
	      vk_fd_open_count());
	CHECK(!vk_mem_live, "%d blocks leaked", vk_mem_live);
	mc_outcome(vk_faults_done);
}

static void s_sizes(void *arg)
{
	static const size_t sizes[] = { 0, 1, 2, 4, 511, 512, PIPE_BUF - 2,
		PIPE_BUF - 1, PIPE_BUF, PIPE_BUF + 1, 65530, 65531, 65532, 65533,
		65536, 65537, 1 << 20, (size_t)1 << 32, ((size_t)1 << 32) + 1,
		SIZE_MAX - 4, SIZE_MAX };
	int i, k, b;
	static const int bases[] = { 0, 1, 2, 3, 252, 700, 1022, 65535 };
	for (b = 0; b < 8; b++)
		for (k = 0; k < 2; k++)
			for (i = 0; i < 21; i++) {
				struct obj o;
				vk_fd_base = bases[b];
				mc_case(k, i, b, 4);
				if (create(&o, k, sizes[i]))
					destroy(&o);
				CHECK(!vk_fd_open_count() && !vk_mem_live,
				      "something is left");
			}
	for (i = 0; i < 32; i++) {
		struct obj o;
		mc_case(2, i, 0, 4);
		if (create(&o, INO, 1u << i))
			destroy(&o);
	}
	mbox_destroy(NULL);
	dynmbox_destroy(NULL);
	inotify_destroy(-1);
	CHECK(mbox_get_read_fd(NULL) < 0 && dynmbox_get_read_fd(NULL) < 0,
	      "no mailbox has a descriptor");
}

/* very many objects at once, and one after another */
static void s_crowd(void *arg)
{
	static struct { void *p; int kind, fd; } o[600];
	int i, k, n = 600, fds = 0, round;
	vk_fd_limit = VK_FD_MAX;
	for (round = 0; round < 3; round++) {
		for (i = 0; i < n; i++) {
			int before = vk_fd_open_count();
			k = round == 2 ? i % 3 : round;
			o[i].kind = k;
			if (k == INO) {
				o[i].fd = inotify_create("/some/path", IN_CREATE);
				CHECK(o[i].fd >= 0, "creation of inotify number "
				      "%d", i);
			} else {
				o[i].p = k == MBOX ? mbox_new(16) :
					dynmbox_new(16);
				CHECK(o[i].p, "creation of %s number %d",
				      kinds[k], i);
				o[i].fd = k == MBOX ? mbox_get_read_fd(o[i].p) :
					dynmbox_get_read_fd(o[i].p);
			}
			mc_case(round, i, k, 5);
			CHECK(vk_fd_open_count() == before + 2 - (k == INO),
			      "%s number %d: %d descriptors", kinds[k], i,
			      vk_fd_open_count() - before);
		}
		for (i = 0; i < VK_FD_MAX; i++) {
			if (vk_fds[i].type == VKT_NONE)
				continue;
			fds++;
			CHECK(vk_fds[i].fdflags & FD_CLOEXEC, "descriptor %d "
			      "is not close-on-exec", i);
			CHECK(vk_fds[i].type == VKT_INOTIFY || vk_fds[i].flags &
			      O_NONBLOCK, "descriptor %d is blocking", i);
		}
		for (i = 0; i < n; i++) {
			int j = (int)(i * 7l % n), before = vk_fd_open_count();
			if (o[j].kind == INO)
				inotify_destroy(o[j].fd);
			else if (o[j].kind == MBOX)
				mbox_destroy(o[j].p);
			else
				dynmbox_destroy(o[j].p);
			CHECK(!vk_fd_get(o[j].fd) && vk_fd_open_count() ==
			      before - 2 + (o[j].kind == INO),
			      "destruction of %s number %d", kinds[o[j].kind],
			      j);
		}
		CHECK(!vk_fd_open_count() && !vk_mem_live, "something is left");
	}
	n = mc_thorough ? 300000 : 66000;
	for (k = 0; k < 3; k++)
		for (i = 0; i < n; i++) {
			struct obj b;
			mc_n_cases++;
			CHECK(create(&b, k, 16), "%s number %d", kinds[k], i);
			destroy(&b);
			CHECK(!vk_mem_live, "%s number %d leaks", kinds[k], i);
		}
}

int main(int argc, char **argv)
{
	static struct job jb[60];
	static const int bases[] = { 700, 0, 1, 2 };
	int n = 0, i, l;
	char name[60];
	mc_init(argc, argv);
	mc_set_reset(vk_reset);
	mc_explore("add flags", s_add, NULL);
	mc_explore("close-on-exec", s_cloexec, NULL);
	mc_explore("refused", s_refused, NULL);
	mc_explore("real", s_real, NULL);
	mc_explore("sizes", s_sizes, NULL);
#define JOB(...) do { jb[n] = (struct job){ __VA_ARGS__ }; \
	snprintf(name, sizeof(name), "objects %d failing %d from %d limit %d", \
		 jb[n].depth, jb[n].faults, jb[n].base, jb[n].limit); \
	mc_explore(name, s_objects, &jb[n]); n++; } while (0)
	for (i = 0; i < 4; i++) {
		JOB(mc_thorough ? 5 : 4, 1, bases[i], VK_FD_FEW);
		JOB(3, 3, bases[i], VK_FD_FEW);
		JOB(mc_thorough ? 6 : 5, 0, bases[i], VK_FD_FEW);
		for (l = 0; l <= 5; l++)
			JOB(4, 0, bases[i], l);
	}
	mc_explore("crowd", s_crowd, NULL);
	return mc_end();
}
