#define _GNU_SOURCE
#include "vk.h"
#include <iconv.h>
#include "mc.h"
#include "fibers.h"
#include <dirent.h>
#include <ftw.h>
#include <errno.h>
#include <setjmp.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <locale.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

/* vfs.c */
int vfs_open(const char *path, int flags);
ssize_t vfs_fd_read(struct vk_fd *f, void *b, size_t n);
ssize_t vfs_fd_write(struct vk_fd *f, const void *b, size_t n);
int vfs_fd_fsync(struct vk_fd *f);
int vfs_fd_close(struct vk_fd *f);
int vfs_stat(const char *path, struct stat *st);
int vfs_fstat(struct vk_fd *f, struct stat *st);
extern int vfs_active;
void vk_vfs_reset(void);

/* the log calls: only their arguments are evaluated */
void verif_ulog(int prio, const char *fmt, ...)
{
	(void)prio;
	(void)fmt;
}

/* ---- faults ---- */
uint64_t vk_fault_mask;
int vk_fault_budget, vk_faults_done;
int vk_first_fault_errno, vk_last_fault_errno;
int vk_first_fault_site, vk_last_fault_site;
uint64_t vk_fault_sites, vk_hard_sites;
const int *vk_errs[VKF_N];

uint64_t vk_fault_always;
int vk_all_points;
int vk_inject(enum vk_site site, const char *name, const int *errnos)
{
	int n = 0, c;
	if (vk_all_points) {
		sched_point(name, &vk_all_points);
		sched_sync(&vk_all_points);
	}
	if (vk_fault_always & VKM(site)) {
		c = 1;
		goto fail;
	}
	if (!(vk_fault_mask & VKM(site)) || vk_fault_budget <= 0)
		return 0;
	if (vk_errs[site])
		errnos = vk_errs[site];
	while (errnos[n])
		n++;
	c = mc_choose(n + 1, name);
	if (!c)
		return 0;
	vk_fault_budget--;
fail:
	vk_last_fault_errno = errnos[c - 1];
	vk_last_fault_site = site;
	vk_fault_sites |= VKM(site);
	if (vk_last_fault_errno != EINTR)
		vk_hard_sites |= VKM(site);
	if (!vk_faults_done++) {
		vk_first_fault_errno = vk_last_fault_errno;
		vk_first_fault_site = site;
	}
	sched_note(0xfa + errnos[c - 1]);
	mc_log("%s fails: %s", name, strerror(errnos[c - 1]));
	return errnos[c - 1];
}
#define INJ(site, name, ...) \
	vk_inject(site, name, (const int[]){ __VA_ARGS__, 0 })
#define FAIL_IF(e) do { int e_ = (e); if (e_) { errno = e_; return -1; } \
	} while (0)

/* ---- conversions: the real ones, counted ---- */
int vk_iconv_live;

iconv_t vk_iconv_open(const char *to, const char *from)
{
	iconv_t c;
	int e = INJ(VKF_ICONV, "iconv_open", ENOMEM);
	if (e) {
		errno = e;
		return (iconv_t)-1;
	}
	c = iconv_open(to, from);
	if (c != (iconv_t)-1)
		vk_iconv_live++;
	return c;
}

int vk_iconv_close(iconv_t c)
{
	vk_iconv_live--;
	return iconv_close(c);
}

/* ---- memory ---- */
int vk_mem_live, vk_use_arena;
uint8_t vk_arena[VK_ARENA_SZ] __attribute__((aligned(64)));
uint8_t vk_arena_live[VK_ARENA_SZ];
static size_t arena_top;
#define N_BLK (1 << 23)
static struct { void *p; size_t n; int next; } blk[N_BLK];
static int n_blk, blk_first[1 << 20];	/* indices from 1 */

static int *blk_bucket(const void *p)
{
	return &blk_first[((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 44];
}

static int blk_find(const void *p)
{
	int i;
	for (i = *blk_bucket(p); i; i = blk[i - 1].next)
		if (blk[i - 1].p == p)
			return i - 1;
	return -1;
}

static void blk_add(void *p, size_t n)
{
	int *b = blk_bucket(p);
	if (n_blk == N_BLK)
		mc_fail("more than %d blocks allocated", N_BLK);
	blk[n_blk].p = p;
	blk[n_blk].n = n;
	blk[n_blk].next = *b;
	*b = ++n_blk;
}

/* the index of the link to block i */
static int *blk_link(int i)
{
	int *l = blk_bucket(blk[i].p);
	while (*l != i + 1)
		l = &blk[*l - 1].next;
	return l;
}

static void blk_del(int i)
{
	*blk_link(i) = blk[i].next;
	if (i != --n_blk) {
		*blk_link(n_blk) = i + 1;
		blk[i] = blk[n_blk];
	}
}

int vk_mem_owned(const void *p) { return blk_find(p) >= 0; }

static void *mem_new(size_t n)
{
	void *p;

	if (INJ(VKF_MALLOC, "malloc", ENOMEM) || n > (SIZE_MAX >> 2)) {
		errno = ENOMEM;
		return NULL;
	}
	if (vk_use_arena) {
		size_t need = ((n + 15) & ~(size_t)15) + 64;
		if (arena_top + need > VK_ARENA_SZ) {
			errno = ENOMEM;
			mc_broken("arena exhausted");
		}
		p = vk_arena + arena_top + 32;
		memset(vk_arena_live + arena_top, 0, need);
		memset(vk_arena_live + arena_top + 32, 1, n);
		memset(p, 0xa5, n);
		arena_top += need;
	} else {
		p = malloc(n);
		if (!p)
			return NULL;
		memset(p, 0xa5, n);
	}
	blk_add(p, n);
	vk_mem_live++;
	return p;
}

void *vk_malloc(size_t n) { return mem_new(n); }

void *vk_calloc(size_t a, size_t b)
{
	size_t n;
	void *p;
	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return NULL;
	}
	p = mem_new(n);
	if (p)
		memset(p, 0, n);
	return p;
}

void vk_free(void *p)
{
	int i;
	if (!p)
		return;
	i = blk_find(p);
	if (i < 0) {
		if (vk_use_arena && (uint8_t *)p >= vk_arena &&
		    (uint8_t *)p < vk_arena + VK_ARENA_SZ)
			mc_fail("free of a bad or already freed pointer");
		free(p);	/* not ours (asan knows) */
		return;
	}
	if (vk_use_arena) {
		tsan_range(p, blk[i].n, 1);
		memset(vk_arena_live + ((uint8_t *)p - vk_arena), 0, blk[i].n);
	} else
		free(p);
	blk_del(i);
	vk_mem_live--;
}

void *vk_realloc(void *p, size_t n)
{
	void *q;
	int i;
	if (!p)
		return mem_new(n);
	i = blk_find(p);
	if (i < 0)
		return realloc(p, n);
	q = mem_new(n);
	if (!q)
		return NULL;
	memcpy(q, p, blk[i].n < n ? blk[i].n : n);
	vk_free(p);
	return q;
}

char *vk_strndup(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	char *p = mem_new(l + 1);
	if (p) {
		memcpy(p, s, l);
		p[l] = 0;
	}
	return p;
}
char *vk_strdup(const char *s) { return vk_strndup(s, SIZE_MAX >> 3); }

void *vk_reallocarray(void *p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return NULL;
	}
	return vk_realloc(p, n);
}

/* the arena and malloc align as much as is ever needed here */
int vk_posix_memalign(void **p, size_t align, size_t n)
{
	if (align > 16)
		return EINVAL;
	*p = mem_new(n);
	return *p ? 0 : ENOMEM;
}

void *vk_aligned_alloc(size_t align, size_t n)
{
	return align > 16 ? NULL : mem_new(n);
}

int vk_vasprintf(char **s, const char *fmt, va_list ap)
{
	va_list ap2;
	int n;
	va_copy(ap2, ap);
	n = vsnprintf(NULL, 0, fmt, ap2);
	va_end(ap2);
	*s = n < 0 ? NULL : mem_new((size_t)n + 1);
	if (!*s)
		return -1;
	return vsnprintf(*s, (size_t)n + 1, fmt, ap);
}

int vk_asprintf(char **s, const char *fmt, ...)
{
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vk_vasprintf(s, fmt, ap);
	va_end(ap);
	return n;
}

static void mem_reset(void)
{
	/* blocks left by a pruned execution */
	while (n_blk > 0) {
		n_blk--;
		*blk_bucket(blk[n_blk].p) = 0;
		if (!((uint8_t *)blk[n_blk].p >= vk_arena &&
		      (uint8_t *)blk[n_blk].p < vk_arena + VK_ARENA_SZ))
			free(blk[n_blk].p);
	}
	vk_mem_live = 0;
	vk_iconv_live = 0;
	memset(vk_arena_live, 0, arena_top);
	arena_top = 0;
}

/* ---- descriptors ---- */
struct vk_fd vk_fds[VK_FD_MAX];
int vk_fd_hi;
int vk_fd_base = 700;
int vk_pipe_slots = 16, vk_fd_limit = VK_FD_FEW;
#define N_PIPES 640
static struct vk_pipe pipes[N_PIPES];
static int pipes_hi;			/* used since the reset */

struct vk_fd *vk_fd_get(int fd)
{
	if (fd < VK_FD_BASE || fd >= VK_FD_BASE + VK_FD_MAX)
		return NULL;
	if (vk_fds[fd - VK_FD_BASE].type == VKT_NONE)
		return NULL;
	return &vk_fds[fd - VK_FD_BASE];
}

static int is_virtual(int fd)
{
	return fd >= VK_FD_BASE && fd < VK_FD_BASE + VK_FD_MAX;
}

int vk_fd_open_count(void)
{
	int i, n = 0;
	for (i = 0; i < vk_fd_hi; i++)
		n += vk_fds[i].type != VKT_NONE;
	return n;
}

int vk_fd_alloc(enum vk_type t)
{
	int i;
	if (vk_fd_open_count() >= vk_fd_limit)
		return -1;
	for (i = 0; i < VK_FD_MAX; i++)
		if (vk_fds[i].type == VKT_NONE) {
			memset(&vk_fds[i], 0, sizeof(vk_fds[i]));
			vk_fds[i].type = t;
			if (i >= vk_fd_hi)
				vk_fd_hi = i + 1;
			return VK_FD_BASE + i;
		}
	return -1;
}

/* Linux's pipe: a ring of page buffers; a write is merged in the last page
 * when it fits, else takes new pages; poll says writable when a page is free */
void vk_pipe_init(struct vk_pipe *p, int nslots)
{
	p->used = 1;
	p->readers = p->writers = 1;
	p->nslots = nslots;
	p->nused = 0;
	p->total_in = p->total_out = 0;
}

ssize_t vk_pipe_do_write(struct vk_pipe *p, const void *buf, size_t n)
{
	const uint8_t *b = buf;
	size_t done = 0, chars = n & 4095;
	if (!n)
		return 0;
	if (chars && p->nused) {
		int l = p->nused - 1;
		int end = p->slot[l].off + p->slot[l].len;
		if (end + chars <= 4096) {
			memcpy(p->slot[l].data + end, b, chars);
			p->slot[l].len += chars;
			done = chars;
		}
	}
	while (done < n && p->nused < p->nslots) {
		size_t k = n - done < 4096 ? n - done : 4096;
		memcpy(p->slot[p->nused].data, b + done, k);
		p->slot[p->nused].off = 0;
		p->slot[p->nused].len = k;
		p->nused++;
		done += k;
	}
	p->total_in += done;
	return done ? (ssize_t)done : -EAGAIN;
}

ssize_t vk_pipe_do_read(struct vk_pipe *p, void *buf, size_t n)
{
	size_t done = 0;
	while (done < n && p->nused) {
		size_t k = p->slot[0].len;
		if (k > n - done)
			k = n - done;
		memcpy((uint8_t *)buf + done, p->slot[0].data + p->slot[0].off,
		       k);
		p->slot[0].off += k;
		p->slot[0].len -= k;
		done += k;
		if (!p->slot[0].len) {
			p->nused--;
			memmove(&p->slot[0], &p->slot[1],
				p->nused * sizeof(p->slot[0]));
		}
	}
	p->total_out += done;
	return done;
}

size_t vk_pipe_bytes(int fd)
{
	struct vk_fd *f = vk_fd_get(fd);
	size_t n = 0;
	int i;
	if (!f || !f->pipe)
		return 0;
	for (i = 0; i < f->pipe->nused; i++)
		n += f->pipe->slot[i].len;
	return n;
}

int vk_fd_readable(int fd)
{
	struct vk_fd *f = vk_fd_get(fd);
	if (!f)
		return 0;
	if (f->type == VKT_PIPE_R)
		return f->pipe->nused > 0;
	if (f->type == VKT_INOTIFY)
		return vk_inos[f->pos].head != vk_inos[f->pos].tail;
	return f->type == VKT_FILE || f->type == VKT_OTHER;
}

int vk_fd_writable(int fd)
{
	struct vk_fd *f = vk_fd_get(fd);
	if (!f)
		return 0;
	if (f->type == VKT_PIPE_W)
		return f->pipe->nused < f->pipe->nslots ||
			!f->pipe->readers;
	return f->type == VKT_FILE || f->type == VKT_OTHER;
}

int vk_pipe2(int fds[2], int flags)
{
	int r, w, i;
	struct vk_pipe *p = NULL;
	FAIL_IF(INJ(VKF_PIPE, "pipe", EMFILE));
	for (i = 0; i < N_PIPES; i++)
		if (!pipes[i].used) {
			p = &pipes[i];
			if (i >= pipes_hi)
				pipes_hi = i + 1;
			break;
		}
	if (!p)
		mc_broken("too many pipes");
	r = vk_fd_alloc(VKT_PIPE_R);
	if (r < 0)
		FAIL_IF(EMFILE);
	w = vk_fd_alloc(VKT_PIPE_W);
	if (w < 0) {
		vk_fds[r - VK_FD_BASE].type = VKT_NONE;
		FAIL_IF(EMFILE);
	}
	vk_pipe_init(p, vk_pipe_slots);
	for (i = 0; i < 2; i++) {
		struct vk_fd *f = vk_fd_get(i ? w : r);
		f->pipe = p;
		f->flags = (flags & O_NONBLOCK) | (i ? O_WRONLY : O_RDONLY);
		f->fdflags = flags & O_CLOEXEC ? FD_CLOEXEC : 0;
	}
	fds[0] = r;
	fds[1] = w;
	return 0;
}

int vk_pipe_create(int fds[2]) { return vk_pipe2(fds, 0); }

int vk_eventfd(unsigned init, int flags)
{
	(void)init;
	(void)flags;
	mc_broken("eventfd is not modelled");
}

void (*vk_close_hook)(int fd);

int vk_close(int fd)
{
	struct vk_fd *f = vk_fd_get(fd);
	int e;
	if (!is_virtual(fd)) {
		if (fd >= 0 && fd <= 2)
			mc_fail("the library closes descriptor %d", fd);
		errno = EBADF;	/* it has no real descriptor of its own */
		return -1;
	}
	if (!f)
		mc_fail("descriptor closed twice");
	if (f->pipe)
		sched_point("close", f->pipe);
	if (vk_close_hook)
		vk_close_hook(fd);
	if (vfs_active && f->type == VKT_FILE)
		return vfs_fd_close(f);
	if (f->pipe) {
		sched_sync(f->pipe);
		if (f->type == VKT_PIPE_R)
			f->pipe->readers--;
		else
			f->pipe->writers--;
		if (!f->pipe->readers && !f->pipe->writers)
			f->pipe->used = 0;
	}
	f->type = VKT_NONE;
	/* as on Linux the descriptor is released even so */
	e = INJ(VKF_CLOSE, "close", EIO, EINTR);
	FAIL_IF(e);
	return 0;
}

int vk_dup(int fd)
{
	struct vk_fd *f = vk_fd_get(fd);
	int n;
	if (!f) {
		errno = EBADF;
		return -1;
	}
	n = vk_fd_alloc(f->type);
	if (n < 0)
		FAIL_IF(EMFILE);
	vk_fds[n - VK_FD_BASE] = *f;
	vk_fds[n - VK_FD_BASE].fdflags = 0;
	if (f->pipe) {
		if (f->type == VKT_PIPE_R)
			f->pipe->readers++;
		else
			f->pipe->writers++;
	}
	return n;
}

static int pipe_has_data(void *p)
{
	return ((struct vk_pipe *)p)->nused > 0 ||
		!((struct vk_pipe *)p)->writers;
}
static int pipe_has_room(void *p)
{
	return ((struct vk_pipe *)p)->nused < ((struct vk_pipe *)p)->nslots ||
		!((struct vk_pipe *)p)->readers;
}

ssize_t (*vk_read_hook)(int fd, void *buf, size_t n);
static ssize_t ino_read(struct vk_fd *f, void *buf, size_t n);

static ssize_t do_read(int fd, void *buf, size_t n)
{
	struct vk_fd *f = vk_fd_get(fd);
	ssize_t r;
	int e;
	if (!f) {
		errno = EBADF;
		return -1;
	}
	if (f->pipe)
		sched_point("read", f->pipe);
	if (vk_read_hook && (f->type == VKT_FILE || f->type == VKT_OTHER))
	{
		ssize_t r = vk_read_hook(fd, buf, n);
		if (r > 0)
			tsan_range(buf, r, 1);
		return r;
	}
	if (vfs_active && f->type == VKT_FILE)
		return vfs_fd_read(f, buf, n);
	e = INJ(VKF_READ, "read", EINTR);
	if (f->pipe)
		sched_sync(f->pipe);
	FAIL_IF(e);
	switch (f->type) {
	case VKT_PIPE_R:
		if (!n)
			return 0;
		if (!f->pipe->nused) {
			if (!f->pipe->writers)
				return 0;
			if (f->flags & O_NONBLOCK)
				FAIL_IF(EAGAIN);
			sched_block("read", pipe_has_data, f->pipe, f->pipe,
				    -1);
			sched_sync(f->pipe);
		}
		tsan_acquire(f->pipe);
		{
			size_t total = 0;
			int i;
			for (i = 0; i < f->pipe->nused; i++)
				total += f->pipe->slot[i].len;
			tsan_range(buf, n < total ? n : total, 1);
		}
		r = vk_pipe_do_read(f->pipe, buf, n);
		tsan_release(f->pipe);
		mc_log("  read(%zu) = %zd", n, r);
		return r;
	case VKT_INOTIFY:
		return ino_read(f, buf, n);
	default:
		errno = EBADF;
		return -1;
	}
}

ssize_t vk_read(int fd, void *buf, size_t n)
{
	ssize_t r = do_read(fd, buf, n);
	if (r > 0)
		tsan_range(buf, r, 1);
	return r;
}

static ssize_t do_write(int fd, const void *buf, size_t n)
{
	struct vk_fd *f = vk_fd_get(fd);
	ssize_t r;
	size_t done = 0;
	int e;
	if (f && vfs_active && f->type == VKT_FILE)
		return vfs_fd_write(f, buf, n);
	if (!f || f->type != VKT_PIPE_W) {
		errno = EBADF;
		return -1;
	}
	sched_point("write", f->pipe);
	e = INJ(VKF_WRITE, "write", EINTR);
	sched_sync(f->pipe);
	FAIL_IF(e);
	if (!f->pipe->readers)
		FAIL_IF(EPIPE);
	tsan_range(buf, n, 0);
	tsan_acquire(f->pipe);
	for (;;) {
		r = vk_pipe_do_write(f->pipe, (const uint8_t *)buf + done,
				     n - done);
		if (r > 0)
			done += r;
		if (done == n)
			break;
		if (f->flags & O_NONBLOCK) {
			if (!done)
				FAIL_IF(EAGAIN);
			break;
		}
		sched_block("write", pipe_has_room, f->pipe, f->pipe, -1);
		sched_sync(f->pipe);
	}
	tsan_release(f->pipe);
	mc_log("  write(%zu) = %zu", n, done);
	return done;
}

ssize_t vk_write(int fd, const void *buf, size_t n)
{
	if (vk_fd_get(fd))
		tsan_range(buf, n, 0);
	return do_write(fd, buf, n);
}

ssize_t vk_readv(int fd, const struct iovec *v, int n)
{
	ssize_t t = 0, r;
	int i;
	for (i = 0; i < n; i++) {
		r = vk_read(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0)
			return t ? t : r;
		t += r;
		if ((size_t)r < v[i].iov_len)
			break;
	}
	return t;
}

ssize_t vk_writev(int fd, const struct iovec *v, int n)
{
	static char tmp[1 << 17];
	size_t t = 0;
	int i;
	for (i = 0; i < n; i++) {
		memcpy(tmp + t, v[i].iov_base, v[i].iov_len);
		t += v[i].iov_len;
	}
	return vk_write(fd, tmp, t);
}
ssize_t vk_send(int fd, const void *b, size_t n, int fl)
{
	(void)fd; (void)b; (void)n; (void)fl;
	errno = ENOTSOCK;
	return -1;
}
ssize_t vk_recv(int fd, void *b, size_t n, int fl)
{
	(void)fd; (void)b; (void)n; (void)fl;
	errno = ENOTSOCK;
	return -1;
}

struct pollarg { struct pollfd *p; nfds_t n; };
static int poll_ready(void *arg)
{
	struct pollarg *a = arg;
	nfds_t i;
	int n = 0;
	for (i = 0; i < a->n; i++) {
		struct vk_fd *f;
		a->p[i].revents = 0;
		if (a->p[i].fd < 0)
			continue;
		f = vk_fd_get(a->p[i].fd);
		if (!f) {
			a->p[i].revents = POLLNVAL;
			n++;
			continue;
		}
		if ((a->p[i].events & POLLIN) && vk_fd_readable(a->p[i].fd))
			a->p[i].revents |= POLLIN;
		if ((a->p[i].events & POLLOUT) && vk_fd_writable(a->p[i].fd))
			a->p[i].revents |= POLLOUT;
		if (f->type == VKT_PIPE_R && !f->pipe->writers)
			a->p[i].revents |= POLLHUP;
		if (f->type == VKT_PIPE_W && !f->pipe->readers)
			a->p[i].revents |= POLLERR;
		n += a->p[i].revents != 0;
	}
	return n;
}

static void poll_sync(struct pollfd *p, nfds_t n)
{
	nfds_t i;
	for (i = 0; i < n; i++) {
		struct vk_fd *f = vk_fd_get(p[i].fd);
		if (f && f->pipe)
			sched_sync(f->pipe);
		else
			sched_sync(f);
	}
}

/* a wait which goes on: -1, interrupted: -2, or the result */
int (*vk_wait_hook)(struct pollfd *p, int timeout);

int vk_poll(struct pollfd *p, nfds_t n, int timeout)
{
	struct pollarg a = { p, n };
	int e, to = 0;
	sched_point("poll", NULL);
	e = INJ(VKF_POLL, "poll", EINTR);
	poll_sync(p, n);
	FAIL_IF(e);
	if (!poll_ready(&a) && timeout != 0 && vk_wait_hook) {
		e = vk_wait_hook(p, timeout);
		if (e >= 0)
			return e;
		if (e == -2)
			FAIL_IF(EINTR);
	}
	if (!poll_ready(&a) && timeout != 0) {
		to = sched_block("poll", poll_ready, &a, NULL, timeout < 0 ?
				 -1 : vk_mono_ns + timeout * 1000000ll);
		poll_sync(p, n);
		if (!to) {
			e = INJ(VKF_POLL, "poll(woken)", EINTR);
			FAIL_IF(e);
		}
	}
	e = poll_ready(&a);
	mc_log("  poll(%d) = %d", timeout, e);
	return e;
}

int vk_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts,
	     const void *mask)
{
	int ms = -1;
	(void)mask;
	if (ts)
		ms = ts->tv_sec > 2000000 ? INT_MAX :
			(int)(ts->tv_sec * 1000 +
			      (ts->tv_nsec + 999999) / 1000000);
	return vk_poll(p, n, ms);
}

int vk_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	struct pollfd p[8];
	int i, k = 0, ret, ms = -1;
	(void)x;
	for (i = 0; i < n && k < 8; i++) {
		int ev = (r && FD_ISSET(i, r) ? POLLIN : 0) |
			(w && FD_ISSET(i, w) ? POLLOUT : 0);
		if (ev) {
			p[k].fd = i;
			p[k++].events = ev;
		}
	}
	if (tv)
		ms = (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000);
	ret = vk_poll(p, k, ms);
	if (ret < 0)
		return ret;
	ret = 0;
	for (i = 0; i < k; i++) {
		if (r && FD_ISSET(p[i].fd, r) &&
		    !(p[i].revents & (POLLIN | POLLHUP)))
			FD_CLR(p[i].fd, r);
		else if (r && FD_ISSET(p[i].fd, r))
			ret++;
		if (w && FD_ISSET(p[i].fd, w) &&
		    !(p[i].revents & (POLLOUT | POLLERR)))
			FD_CLR(p[i].fd, w);
		else if (w && FD_ISSET(p[i].fd, w))
			ret++;
	}
	return ret;
}

#define SETFL_MASK (O_APPEND | O_NONBLOCK | O_ASYNC | O_DIRECT | O_NOATIME)
int vk_fcntl(int fd, int cmd, ...)
{
	struct vk_fd *f = vk_fd_get(fd);
	va_list ap;
	int arg, e;
	va_start(ap, cmd);
	arg = va_arg(ap, int);
	va_end(ap);
	if (!f) {
		errno = EBADF;
		return -1;
	}
	e = INJ(VKF_FCNTL, "fcntl", EPERM);
	FAIL_IF(e);
	switch (cmd) {
	case F_GETFD:
		return f->fdflags;
	case F_SETFD:
		f->fdflags = arg;
		return 0;
	case F_GETFL:
		return f->flags;
	case F_SETFL:
		f->flags = (f->flags & ~SETFL_MASK) | (arg & SETFL_MASK);
		return 0;
	case F_DUPFD:
	case F_DUPFD_CLOEXEC:
		e = vk_dup(fd);
		if (e >= 0 && cmd == F_DUPFD_CLOEXEC)
			vk_fd_get(e)->fdflags = FD_CLOEXEC;
		return e;
	case F_GETPIPE_SZ:
		if (f->pipe)
			return f->pipe->nslots * 4096;
		/* fall through */
	default:
		errno = EINVAL;
		return -1;
	}
}

/* ---- inotify ---- */
struct vk_ino vk_inos[VK_INOS];
int vk_ino_watches;
void (*vk_ino_hook)(const char *when);
char vk_ino_path[256];
uint32_t vk_ino_mask;

int vk_inotify_init1(int flags)
{
	int fd, q, i, e = INJ(VKF_INOTIFY, "inotify_init", EMFILE);
	FAIL_IF(e);
	fd = vk_fd_alloc(VKT_INOTIFY);
	if (fd < 0)
		FAIL_IF(EMFILE);
	/* the lowest queue which is free */
	for (q = 0; q < VK_INOS - 1; q++) {
		for (i = 0; i < vk_fd_hi; i++)
			if (VK_FD_BASE + i != fd &&
			    vk_fds[i].type == VKT_INOTIFY && vk_fds[i].pos == q)
				break;
		if (i == vk_fd_hi)
			break;
	}
	vk_inos[q].head = vk_inos[q].tail = 0;
	vk_fd_get(fd)->pos = q;
	vk_fd_get(fd)->flags = flags & IN_NONBLOCK;
	vk_fd_get(fd)->fdflags = flags & IN_CLOEXEC ? FD_CLOEXEC : 0;
	return fd;
}
int vk_inotify_init(void) { return vk_inotify_init1(0); }

int vk_inotify_add_watch(int fd, const char *path, uint32_t mask)
{
	struct vk_fd *f = vk_fd_get(fd);
	int e;
	if (!f || f->type != VKT_INOTIFY)
		FAIL_IF(EBADF);
	e = INJ(VKF_INOTIFY, "inotify_add_watch", ENOENT);
	FAIL_IF(e);
	if (!path)
		FAIL_IF(EFAULT);
	if (!mask)
		FAIL_IF(EINVAL);
	snprintf(vk_ino_path, sizeof(vk_ino_path), "%s", path);
	vk_ino_mask = mask;
	return ++vk_ino_watches;
}
int vk_inotify_rm_watch(int fd, int wd)
{
	(void)fd;
	(void)wd;
	return 0;
}

static ssize_t ino_read(struct vk_fd *f, void *buf, size_t n)
{
	size_t done = 0;
	struct vk_ino *q = &vk_inos[f->pos];
	if (vk_ino_hook && q == vk_inos)
		vk_ino_hook("read");
	if (q->head == q->tail) {
		if (f->flags & O_NONBLOCK)
			FAIL_IF(EAGAIN);
		mc_fail("read of an empty file event queue blocks for ever");
	}
	while (q->head != q->tail) {
		struct vk_ino_ev *e = &q->q[q->head];
		struct inotify_event h = { e->wd, e->mask, e->cookie, e->len };
		if (done + sizeof(h) + e->len > n)
			break;
		memcpy((char *)buf + done, &h, sizeof(h));
		memcpy((char *)buf + done + sizeof(h), e->name, e->len);
		done += sizeof(h) + e->len;
		q->head = (q->head + 1) % VK_INO_EVS;
	}
	if (!done)
		FAIL_IF(EINVAL);
	return done;
}

int vk_ioctl(int fd, unsigned long req, ...)
{
	struct vk_fd *f = vk_fd_get(fd);
	va_list ap;
	void *arg;
	int e;
	va_start(ap, req);
	arg = va_arg(ap, void *);
	va_end(ap);
	if (!f) {
		errno = EBADF;
		return -1;
	}
	e = INJ(VKF_IOCTL, "ioctl", EIO);
	FAIL_IF(e);
	if (req == FIONREAD && f->type == VKT_INOTIFY) {
		int i, n = 0;
		struct vk_ino *q = &vk_inos[f->pos];
		if (vk_ino_hook && q == vk_inos)
			vk_ino_hook("ioctl");
		for (i = q->head; i != q->tail; i = (i + 1) % VK_INO_EVS)
			n += sizeof(struct inotify_event) + q->q[i].len;
		*(int *)arg = n;
		return 0;
	}
	if (req == FIONREAD && f->pipe) {
		*(int *)arg = (int)vk_pipe_bytes(fd);
		return 0;
	}
	if (req == FIONBIO) {
		f->flags = (f->flags & ~O_NONBLOCK) |
			(*(int *)arg ? O_NONBLOCK : 0);
		return 0;
	}
	if (req == FIOCLEX) {
		f->fdflags |= FD_CLOEXEC;
		return 0;
	}
	errno = ENOTTY;
	return -1;
}

/* ---- clocks ---- */
int64_t vk_mono_ns, vk_real_ns;
void (*vk_clock_hook)(int clk);
int vk_clock_quiet;
int (*vk_sleep_hook)(const struct timespec *req, struct timespec *rem);
int (*vk_settime_hook)(const struct timespec *ts);

void vk_advance(int64_t ns)
{
	vk_mono_ns += ns;
	vk_real_ns += ns;
}

static void to_ts(int64_t ns, struct timespec *ts)
{
	tsan_range(ts, sizeof(*ts), 1);
	ts->tv_sec = ns / 1000000000;
	ts->tv_nsec = ns % 1000000000;
	if (ts->tv_nsec < 0) {
		ts->tv_nsec += 1000000000;
		ts->tv_sec--;
	}
}

int vk_clock_gettime(clockid_t c, struct timespec *ts)
{
	int mono, e;
	switch (c) {
	case CLOCK_MONOTONIC:
	case CLOCK_MONOTONIC_RAW:
	case CLOCK_MONOTONIC_COARSE:
	case CLOCK_BOOTTIME:
		mono = 1;
		break;
	case CLOCK_REALTIME:
	case CLOCK_REALTIME_COARSE:
		mono = 0;
		break;
	default:
		errno = EINVAL;
		return -1;
	}
	if (!vk_clock_quiet) {
		sched_point("clock", &vk_mono_ns);
		sched_sync(&vk_mono_ns);
	}
	if (vk_clock_hook)
		vk_clock_hook(mono ? CLOCK_MONOTONIC : CLOCK_REALTIME);
	e = INJ(VKF_CLOCK, "clock_gettime", EINVAL);
	FAIL_IF(e);
	if (!ts)
		FAIL_IF(EFAULT);
	/* each clock has its own value */
	to_ts(c == CLOCK_MONOTONIC_RAW ? vk_mono_ns + 3000001234ll :
	      c == CLOCK_BOOTTIME ? vk_mono_ns + 7200500000000ll :
	      c == CLOCK_MONOTONIC_COARSE ? vk_mono_ns - vk_mono_ns % 4000000 :
	      c == CLOCK_REALTIME_COARSE ? vk_real_ns - vk_real_ns % 4000000 :
	      mono ? vk_mono_ns : vk_real_ns, ts);
	sched_note(vk_mono_ns);
	sched_note(vk_real_ns);
	return 0;
}

int vk_gettimeofday(struct timeval *tv, void *tz)
{
	struct timespec ts;
	int e;
	(void)tz;
	if (!vk_clock_quiet) {
		sched_point("clock", &vk_mono_ns);
		sched_sync(&vk_mono_ns);
	}
	if (vk_clock_hook)
		vk_clock_hook(CLOCK_REALTIME);
	e = INJ(VKF_CLOCK, "gettimeofday", EFAULT);
	FAIL_IF(e);
	to_ts(vk_real_ns, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	sched_note(vk_mono_ns);
	sched_note(vk_real_ns);
	return 0;
}

time_t vk_time(time_t *t)
{
	struct timespec ts;
	if (vk_clock_hook)
		vk_clock_hook(CLOCK_REALTIME);
	to_ts(vk_real_ns, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}

int vk_timespec_get(struct timespec *ts, int base)
{
	return base == TIME_UTC && vk_clock_gettime(CLOCK_REALTIME, ts) == 0 ?
		base : 0;
}

int vk_clock_settime(clockid_t c, const struct timespec *ts)
{
	int e;
	if (c != CLOCK_REALTIME || ts->tv_nsec < 0 ||
	    ts->tv_nsec >= 1000000000)
		FAIL_IF(EINVAL);
	if (!vk_clock_quiet) {
		sched_point("clock_settime", &vk_mono_ns);
		sched_sync(&vk_mono_ns);
	}
	e = INJ(VKF_CLOCK, "clock_settime", EPERM);
	FAIL_IF(e);
	if (vk_settime_hook && vk_settime_hook(ts) < 0)
		return -1;
	vk_real_ns = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	return 0;
}

int vk_settimeofday(const struct timeval *tv, const void *tz)
{
	struct timespec ts;
	(void)tz;
	if (!tv)
		return 0;
	if (tv->tv_usec < 0 || tv->tv_usec >= 1000000)
		FAIL_IF(EINVAL);
	ts.tv_sec = tv->tv_sec;
	ts.tv_nsec = tv->tv_usec * 1000;
	return vk_clock_settime(CLOCK_REALTIME, &ts);
}

int vk_nanosleep(const struct timespec *req, struct timespec *rem)
{
	int e;
	if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0)
		FAIL_IF(EINVAL);
	if (vk_sleep_hook)
		return vk_sleep_hook(req, rem);
	e = INJ(VKF_SLEEP, "nanosleep", EINTR);
	FAIL_IF(e);
	vk_advance(req->tv_sec * 1000000000ll + req->tv_nsec);
	return 0;
}

int vk_clock_nanosleep(clockid_t c, int flags, const struct timespec *req,
		       struct timespec *rem)
{
	struct timespec r = *req;
	int e;
	if (flags & TIMER_ABSTIME) {
		int64_t d = req->tv_sec * 1000000000ll + req->tv_nsec -
			(c == CLOCK_REALTIME ? vk_real_ns : vk_mono_ns);
		to_ts(d < 0 ? 0 : d, &r);
	}
	e = vk_nanosleep(&r, rem);
	return e < 0 ? errno : 0;
}

int vk_usleep(unsigned us)
{
	struct timespec ts = { us / 1000000, us % 1000000 * 1000 };
	return vk_nanosleep(&ts, NULL);
}
unsigned vk_sleep(unsigned s)
{
	struct timespec ts = { s, 0 };
	return vk_nanosleep(&ts, NULL) < 0 ? s : 0;
}

/* ---- randomness ---- */
ssize_t (*vk_getrandom_hook)(void *buf, size_t n, unsigned flags);
ssize_t vk_getrandom(void *buf, size_t n, unsigned flags)
{
	if (!vk_getrandom_hook)
		mc_broken("no getrandom");
	n = vk_getrandom_hook(buf, n, flags);
	if ((ssize_t)n > 0)
		tsan_range(buf, n, 1);
	return n;
}
int vk_getentropy(void *buf, size_t n)
{
	ssize_t r;
	if (n > 256)
		FAIL_IF(EIO);
	r = vk_getrandom(buf, n, 0);
	return r == (ssize_t)n ? 0 : -1;
}

/* ---- directory tree ---- */
struct vk_node vk_tree[VK_NODES];
int vk_tree_n, vk_tree_dots, vk_tree_dtype, vk_tree_meta, vk_dirs_open,
	vk_tree_cwd;

int vk_node_add(int parent, const char *name, unsigned mode, int64_t size)
{
	struct vk_node *n = &vk_tree[vk_tree_n];
	if (vk_tree_n == VK_CROWD)
		mc_broken("tree full");
	n->parent = parent;
	snprintf(n->name, sizeof(n->name), "%s", name);
	n->mode = mode;
	n->size = size;
	n->target = -1;
	n->crowd = 0;
	return vk_tree_n++;
}

int64_t vk_crowd_same = -1;
int64_t vk_crowd_size(long i)
{
	if (vk_crowd_same >= 0)
		return vk_crowd_same;
	return i % 1000 == 999 ? -1 : i % 4099 == 77 ? 5000000000ll + i :
		(i * 7 + 3) % 100000;
}
static int crowd_find(int dir, const char *name, size_t l)
{
	struct vk_node *n = &vk_tree[VK_CROWD];
	char *end;
	long i = -1;
	if (l > 1 && l < 20 && *name == 'e')
		i = strtol(name + 1, &end, 10);
	if (i < 0 || i >= vk_tree[dir].crowd || end != name + l)
		return -1;
	n->parent = dir;
	n->size = vk_crowd_size(i);
	n->mode = n->size < 0 ? S_IFDIR : S_IFREG;
	if (n->size < 0)
		n->size = 4096;
	return VK_CROWD;
}

static int node_follow(int i)
{
	int hops = 0;
	while (i >= 0 && S_ISLNK(vk_tree[i].mode)) {
		i = vk_tree[i].target;
		if (++hops > 8)
			return -ELOOP;
		if (i < 0)
			return -ENOENT;
	}
	return i;
}

static int node_find_at(int cur, const char *path, int follow)
{
	const char *p = path;
	if (!vk_tree_n || !*path)
		return -ENOENT;
	if (strlen(path) >= PATH_MAX)
		return -ENAMETOOLONG;
	if (*p == '/')
		cur = 0;
	while (*p) {
		size_t l;
		int i, k;
		while (*p == '/')
			p++;
		if (!*p)
			break;
		l = strcspn(p, "/");
		cur = node_follow(cur);
		if (cur < 0)
			return cur;
		if (!S_ISDIR(vk_tree[cur].mode))
			return -ENOTDIR;
		if (l == 1 && *p == '.') {
			p += l;
			continue;
		}
		if (l == 2 && !strncmp(p, "..", 2)) {
			cur = vk_tree[cur].parent;
			p += l;
			continue;
		}
		/* a child is most often added after its parent */
		for (k = 1, i = cur + 1; k <= vk_tree_n; k++, i++) {
			if (i >= vk_tree_n)
				i = 0;
			if (i && vk_tree[i].parent == cur &&
			    strlen(vk_tree[i].name) == l &&
			    !strncmp(vk_tree[i].name, p, l))
				break;
		}
		if (k > vk_tree_n)
			i = vk_tree[cur].crowd ? crowd_find(cur, p, l) : -1;
		if (i < 0)
			return -ENOENT;
		cur = i;
		p += l;
		if (*p == '/') {
			cur = node_follow(cur);
			if (cur < 0)
				return cur;
			if (!S_ISDIR(vk_tree[cur].mode))
				return -ENOTDIR;
		}
	}
	return follow ? node_follow(cur) : cur;
}

int vk_node_find(const char *path, int follow)
{
	return node_find_at(vk_tree_cwd, path, follow);
}

static void node_stat(int i, struct stat *st)
{
	tsan_range(st, sizeof(*st), 1);
	memset(st, 0, sizeof(*st));
	st->st_mode = vk_tree[i].mode | 0644;
	st->st_size = vk_tree[i].size;
	st->st_ino = i + 1;
	st->st_nlink = 1;
	st->st_blksize = 4096;
	st->st_blocks = (vk_tree[i].size + 511) / 512;
	st->st_dev = 0x801;
	switch (vk_tree_meta) {
	case 1:		/* every directory is a file system of its own */
		st->st_dev = 0x900 + (S_ISDIR(vk_tree[i].mode) ? i :
				      vk_tree[i].parent);
		st->st_uid = st->st_gid = 1234;
		if (S_ISDIR(vk_tree[i].mode)) {
			int k;
			for (st->st_nlink = 2, k = 1; k < vk_tree_n; k++)
				st->st_nlink += vk_tree[k].parent == i &&
						S_ISDIR(vk_tree[k].mode);
		}
		break;
	case 2:		/* a file system which does not number its files */
		st->st_dev = 0xa00 + i;
		st->st_ino = 7;
		st->st_nlink = 2;
		break;
	case 3:		/* no permissions, times in the future, no block */
		st->st_mode = vk_tree[i].mode;
		st->st_blocks = 0;
		st->st_blksize = 512;
		st->st_nlink = 0;
		if (!S_ISREG(vk_tree[i].mode))
			st->st_size = 0;
		st->st_mtime = st->st_ctime = st->st_atime = 1ll << 40;
		break;
	case 4:		/* all permissions, old times, many blocks */
		st->st_mode = vk_tree[i].mode | 07777;
		st->st_nlink = 65000;
		if (!S_ISREG(vk_tree[i].mode))
			st->st_size = 1ll << 50;
		st->st_blocks = 0x100000000ll;
		st->st_blksize = 1 << 20;
		st->st_mtime = st->st_ctime = st->st_atime = -5;
		st->st_ino = ~0ull - i;
		st->st_dev = ~0ull;
		st->st_rdev = 0x101;
		break;
	}
}

/* 2: only what lies in /v/, the rest is in the tree */
static int in_vfs(const char *path)
{
	return vfs_active == 1 || (vfs_active == 2 && !strncmp(path, "/v/", 3));
}

static int stat_at(int cur, const char *path, struct stat *st, int follow)
{
	int i, e = INJ(VKF_STAT, "lstat", EIO, EACCES);
	FAIL_IF(e);
	if (in_vfs(path))
		return vfs_stat(path, st);
	i = node_find_at(cur, path, follow);
	if (i < 0)
		FAIL_IF(-i);
	node_stat(i, st);
	return 0;
}

struct vk_dir { int node, pos, dots, fd; long crowd; struct dirent ent; };

int vk_lstat(const char *path, struct stat *st)
{
	return stat_at(vk_tree_cwd, path, st, 0);
}
int vk_stat(const char *path, struct stat *st)
{
	return stat_at(vk_tree_cwd, path, st, 1);
}
int vk_fstat(int fd, struct stat *st)
{
	struct vk_fd *f = vk_fd_get(fd);
	int e;
	if (!f)
		FAIL_IF(EBADF);
	e = INJ(VKF_STAT, "fstat", EIO);
	FAIL_IF(e);
	if (vfs_active && f->type == VKT_FILE)
		return vfs_fstat(f, st);
	node_stat((int)f->pos, st);
	return 0;
}

static int at_node(int dfd, const char *path)
{
	struct vk_fd *f = vk_fd_get(dfd);
	if (*path == '/' || dfd == AT_FDCWD || !f)
		return vk_tree_cwd;
	return (int)f->pos;
}

int vk_fstatat(int dfd, const char *path, struct stat *st, int flags)
{
	if (!*path && (flags & AT_EMPTY_PATH))
		return vk_fstat(dfd, st);
	return stat_at(at_node(dfd, path), path, st,
		       !(flags & AT_SYMLINK_NOFOLLOW));
}

static struct vk_dir *dir_new(int node)
{
	struct vk_dir *d = calloc(1, sizeof(*d));
	if (!d)
		mc_broken("out of memory");
	d->node = node;
	d->crowd = node == VK_CROWD ? 0 : vk_tree[node].crowd;
	d->fd = -1;
	vk_dirs_open++;
	return d;
}

void *vk_opendir(const char *path)
{
	int i, e = INJ(VKF_OPENDIR, "opendir", EACCES, EMFILE);
	if (e) {
		errno = e;
		return NULL;
	}
	i = path ? vk_node_find(path, 1) : -EFAULT;
	if (i >= 0 && !S_ISDIR(vk_tree[i].mode))
		i = -ENOTDIR;
	if (i < 0) {
		errno = -i;
		return NULL;
	}
	return dir_new(i);
}

int vk_closedir(void *dir);

void *vk_fdopendir(int fd)
{
	struct vk_fd *f = vk_fd_get(fd);
	struct vk_dir *d;
	int e = INJ(VKF_OPENDIR, "fdopendir", ENOMEM);
	if (e || !f) {
		errno = e ? e : EBADF;
		return NULL;
	}
	d = dir_new((int)f->pos);
	d->fd = fd;
	return d;
}

struct dirent *vk_readdir(void *dir)
{
	struct vk_dir *d = dir;
	int i, k = 0, e = INJ(VKF_READDIR, "readdir", EIO);
	const char *name = NULL;
	unsigned mode = S_IFDIR;
	if (e) {
		errno = e;
		return NULL;
	}
	for (;;) {
		int p = d->pos++;
		int base = vk_tree_dots == 0 ? 2 : 0;
		if (base && p < 2) {
			name = p ? ".." : ".";
			break;
		}
		p -= base;
		if (p < d->crowd) {
			sprintf(d->ent.d_name, "e%d", p);
			name = NULL;
			mode = vk_crowd_size(p) < 0 ? S_IFDIR : S_IFREG;
			break;
		}
		p -= d->crowd;
		for (i = 1, k = 0; i < vk_tree_n; i++)
			if (vk_tree[i].parent == d->node && k++ == p)
				break;
		if (i < vk_tree_n) {
			name = vk_tree[i].name;
			mode = vk_tree[i].mode;
			break;
		}
		if (vk_tree_dots == 1 && p - k < 2) {
			name = p - k ? ".." : ".";
			break;
		}
		return NULL;	/* end */
	}
	if (name)
		memset(&d->ent, 0, sizeof(d->ent));
	d->ent.d_ino = d->pos;
	d->ent.d_reclen = sizeof(d->ent);
	d->ent.d_type = vk_tree_dtype ? IFTODT(mode) : DT_UNKNOWN;
	if (name && strlen(name) > 255)
		mc_broken("name too long");
	if (name)
		strcpy(d->ent.d_name, name);
	return &d->ent;
}

int vk_closedir(void *dir)
{
	struct vk_dir *d = dir;
	if (!d)
		FAIL_IF(EINVAL);
	if (d->fd >= 0)
		vk_close(d->fd);
	free(d);
	vk_dirs_open--;
	return 0;
}
void vk_rewinddir(void *dir) { ((struct vk_dir *)dir)->pos = 0; }
int vk_dirfd(void *dir)
{
	struct vk_dir *d = dir;
	if (d->fd < 0) {
		d->fd = vk_fd_alloc(VKT_OTHER);
		vk_fd_get(d->fd)->pos = d->node;
	}
	return d->fd;
}

int vk_scandirat(int dfd, const char *path, struct dirent ***list,
		 int (*filter)(const struct dirent *),
		 int (*cmp)(const struct dirent **, const struct dirent **))
{
	struct dirent **v = NULL, **w, *e;
	int n = 0, size = 0, err = 0;
	void *d;
	if (dfd != AT_FDCWD && *path != '/')
		mc_broken("scandirat of a relative path");
	d = vk_opendir(path);
	if (!d)
		return -1;
	for (;;) {
		errno = 0;
		e = vk_readdir(d);
		if (!e) {
			err = errno;
			break;
		}
		if (filter && !filter(e))
			continue;
		if (n == size) {
			size = size ? 2 * size : 10;
			w = vk_realloc(v, size * sizeof(*v));
			if (!w) {
				err = ENOMEM;
				break;
			}
			v = w;
		}
		v[n] = vk_malloc(sizeof(*e));
		if (!v[n]) {
			err = ENOMEM;
			break;
		}
		*v[n++] = *e;
	}
	vk_closedir(d);
	if (err) {
		while (n > 0)
			vk_free(v[--n]);
		vk_free(v);
		errno = err;
		return -1;
	}
	if (!v) {
		v = vk_malloc(sizeof(*v));
		FAIL_IF(v ? 0 : ENOMEM);
	}
	if (cmp)
		qsort(v, n, sizeof(*v), (int (*)(const void *, const void *))cmp);
	*list = v;
	return n;
}

int vk_scandir(const char *path, struct dirent ***list,
	       int (*filter)(const struct dirent *),
	       int (*cmp)(const struct dirent **, const struct dirent **))
{
	return vk_scandirat(AT_FDCWD, path, list, filter, cmp);
}

/* nftw, as documented; FTW_CHDIR and loops are not needed */
typedef int (*nftw_fn)(const char *, const struct stat *, int, struct FTW *);

static int nftw_at(const char *path, nftw_fn fn, int flags, int level)
{
	struct FTW ftw = { .level = level };
	struct stat st;
	struct dirent *e;
	char *sub;
	void *d = NULL;
	int type, r, err;
	const char *base = strrchr(path, '/');
	ftw.base = base && base[1] ? (int)(base + 1 - path) : 0;
	memset(&st, 0, sizeof(st));
	r = stat_at(vk_tree_cwd, path, &st, !(flags & FTW_PHYS));
	if (r < 0) {
		if (errno != EACCES && errno != ENOENT)
			return -1;
		if (level == 0)
			return -1;
		type = FTW_NS;
	} else if (S_ISDIR(st.st_mode)) {
		d = vk_opendir(path);
		if (!d && errno != EACCES)
			return -1;
		type = !d ? FTW_DNR : flags & FTW_DEPTH ? FTW_DP : FTW_D;
	} else {
		type = S_ISLNK(st.st_mode) ? FTW_SL : FTW_F;
	}
	if (!d)
		return fn(path, &st, type, &ftw);
	r = 0;
	if (type == FTW_D)
		r = fn(path, &st, type, &ftw);
	if ((flags & FTW_ACTIONRETVAL) && r == FTW_SKIP_SUBTREE) {
		vk_closedir(d);
		return 0;
	}
	while (r == 0) {
		errno = 0;
		e = vk_readdir(d);
		if (!e) {
			r = errno ? -1 : 0;
			break;
		}
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
			continue;
		sub = malloc(strlen(path) + strlen(e->d_name) + 2);
		sprintf(sub, "%s%s%s", path,
			path[strlen(path) - 1] == '/' ? "" : "/", e->d_name);
		r = nftw_at(sub, fn, flags, level + 1);
		free(sub);
		if ((flags & FTW_ACTIONRETVAL) && r == FTW_SKIP_SIBLINGS) {
			r = 0;
			break;
		}
	}
	err = errno;
	vk_closedir(d);
	errno = err;
	if (r == 0 && (flags & FTW_DEPTH))
		r = fn(path, &st, FTW_DP, &ftw);
	return r;
}

int vk_nftw(const char *path, nftw_fn fn, int fds, int flags)
{
	(void)fds;
	if (flags & FTW_CHDIR)
		mc_broken("nftw changing the directory is not modelled");
	return nftw_at(path, fn, flags, 0);
}

/* ---- open / fsync ---- */
int (*vk_open_hook)(const char *path, int flags, int mode);
int (*vk_fsync_hook)(int fd, int data_only);
int vk_open_flags;

static int open_at(int cur, const char *path, int flags, int mode)
{
	int i, fd;
	if (!path)
		FAIL_IF(EFAULT);
	if (vk_open_hook)
		return vk_open_hook(path, flags, mode);
	if (in_vfs(path))
		return vfs_open(path, flags);
	vk_open_flags |= flags;
	i = INJ(VKF_OPEN, "open", EACCES, EMFILE);
	FAIL_IF(i);
	i = node_find_at(cur, path, !(flags & O_NOFOLLOW));
	if (i < 0)
		FAIL_IF(-i);
	if ((flags & O_DIRECTORY) && !S_ISDIR(vk_tree[i].mode))
		FAIL_IF(ENOTDIR);
	if ((flags & O_ACCMODE) != O_RDONLY && S_ISDIR(vk_tree[i].mode))
		FAIL_IF(EISDIR);
	fd = vk_fd_alloc(VKT_OTHER);
	if (fd < 0)
		FAIL_IF(EMFILE);
	vk_fd_get(fd)->pos = i;
	vk_fd_get(fd)->flags = flags;
	vk_fd_get(fd)->fdflags = flags & O_CLOEXEC ? FD_CLOEXEC : 0;
	return fd;
}

int vk_open(const char *path, int flags, ...)
{
	int mode;
	va_list ap;
	va_start(ap, flags);
	mode = va_arg(ap, int);
	va_end(ap);
	return open_at(vk_tree_cwd, path, flags, mode);
}
int vk_openat(int dfd, const char *path, int flags, ...)
{
	return open_at(at_node(dfd, path), path, flags, 0);
}
int vk_creat(const char *path, int mode)
{
	return vk_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode);
}

static int sync_common(int fd, int data)
{
	int e;
	if (!vk_fd_get(fd))
		FAIL_IF(EBADF);
	if (vfs_active && vk_fd_get(fd)->type == VKT_FILE)
		return vfs_fd_fsync(vk_fd_get(fd));
	if (vk_fsync_hook)
		return vk_fsync_hook(fd, data);
	e = INJ(VKF_FSYNC, "fsync", EIO);
	FAIL_IF(e);
	return 0;
}
int vk_fsync(int fd) { return sync_common(fd, 0); }
int vk_fdatasync(int fd) { return sync_common(fd, 1); }
int vk_syncfs(int fd) { return sync_common(fd, 0); }
void vk_sync(void) {}
int vk_sync_file_range(int fd, off_t o, off_t n, unsigned fl)
{
	(void)fd; (void)o; (void)n; (void)fl;
	return 0;	/* no durability guarantee */
}

/* ---- what the threads of the process share ---- */
char vk_shared[16] __attribute__((section("libdata"))) = { 1 };
enum { SH_CWD, SH_UMASK, SH_ENV, SH_TM, SH_STRTOK, SH_RAND, SH_RAND48, SH_LOCALE, SH_SIGNAL, SH_LIMIT,
	SH_MB, SH_HSEARCH, SH_INET, SH_CVT };
static void shared(int what)
{
	if (vk_all_points) {
		sched_point("shared state", &vk_all_points);
		sched_sync(&vk_all_points);
	}
	tsan_range(&vk_shared[what], 1, 1);
}
int vk_chdir(const char *path)
{
	int i = vk_node_find(path, 1);
	shared(SH_CWD);
	if (i >= 0 && !S_ISDIR(vk_tree[i].mode))
		i = -ENOTDIR;
	if (i < 0)
		FAIL_IF(-i);
	vk_tree_cwd = i;
	return 0;
}
int vk_fchdir(int fd)
{
	struct vk_fd *f = vk_fd_get(fd);
	shared(SH_CWD);
	if (!f)
		FAIL_IF(EBADF);
	if (!S_ISDIR(vk_tree[f->pos].mode))
		FAIL_IF(ENOTDIR);
	vk_tree_cwd = (int)f->pos;
	return 0;
}
void (*vk_signal(int n, void (*f)(int)))(int)
{
	shared(SH_SIGNAL);
	(void)n, (void)f;
	return SIG_DFL;
}
int vk_sigaction(int n, const struct sigaction *a, struct sigaction *old)
{
	shared(SH_SIGNAL);
	(void)n, (void)a;
	if (old)
		memset(old, 0, sizeof(*old));
	return 0;
}
unsigned vk_alarm(unsigned s) { shared(SH_SIGNAL); (void)s; return 0; }
int vk_setitimer(int w, const struct itimerval *v, struct itimerval *old)
{
	shared(SH_SIGNAL);
	(void)w, (void)v;
	if (old)
		memset(old, 0, sizeof(*old));
	return 0;
}
int vk_setrlimit(int r, const struct rlimit *l)
{
	shared(SH_LIMIT);
	(void)r, (void)l;
	return 0;
}
unsigned vk_umask(unsigned m) { shared(SH_UMASK); (void)m; return 022; }
int vk_setenv(const char *n, const char *v, int o)
{
	shared(SH_ENV);
	return setenv(n, v, o);
}
int vk_unsetenv(const char *n) { shared(SH_ENV); return unsetenv(n); }
int vk_putenv(char *s) { shared(SH_ENV); return putenv(s); }
struct tm *vk_gmtime(const time_t *t) { shared(SH_TM); return gmtime(t); }
struct tm *vk_localtime(const time_t *t) { shared(SH_TM); return localtime(t); }
char *vk_asctime(const struct tm *t) { shared(SH_TM); return asctime(t); }
char *vk_ctime(const time_t *t) { shared(SH_TM); return ctime(t); }
char *vk_strtok(char *s, const char *d) { shared(SH_STRTOK); return strtok(s, d); }
int vk_rand(void) { shared(SH_RAND); return rand(); }
void vk_srand(unsigned s) { shared(SH_RAND); srand(s); }
long vk_random(void) { shared(SH_RAND); return random(); }
void vk_srandom(unsigned s) { shared(SH_RAND); srandom(s); }
double vk_drand48(void) { shared(SH_RAND48); return drand48(); }
long vk_lrand48(void) { shared(SH_RAND48); return lrand48(); }
long vk_mrand48(void) { shared(SH_RAND48); return mrand48(); }
void vk_srand48(long s) { shared(SH_RAND48); srand48(s); }
char *vk_setlocale(int c, const char *l) { shared(SH_LOCALE); return setlocale(c, l); }
int vk_mblen(const char *s, size_t n) { shared(SH_MB); return mblen(s, n); }
int vk_mbtowc(wchar_t *w, const char *s, size_t n)
{
	shared(SH_MB);
	return mbtowc(w, s, n);
}
int vk_wctomb(char *s, wchar_t w) { shared(SH_MB); return wctomb(s, w); }

jmp_buf *vk_abort_jb;
void vk_abort(void)
{
	if (vk_abort_jb)
		longjmp(*vk_abort_jb, 1);
	mc_fail("abort() called");
}
void vk_assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	(void)f;
	(void)l;
	mc_fail("assertion failed in %s: %s", fn, e);
}

void vk_reset(void)
{
	int i;
	mem_reset();
	for (i = 0; i < vk_fd_hi; i++)
		vk_fds[i].type = VKT_NONE;
	vk_fd_hi = 0;
	for (i = 0; i < pipes_hi; i++)
		pipes[i].used = 0;
	pipes_hi = 0;
	vk_fault_mask = vk_fault_always = 0;
	vk_fault_budget = vk_faults_done = 0;
	vk_fault_sites = vk_hard_sites = 0;
	vk_first_fault_errno = vk_last_fault_errno = 0;
	memset(vk_errs, 0, sizeof(vk_errs));
	vk_pipe_slots = 16;
	vk_wait_hook = NULL;
	vk_clock_quiet = 0;
	vk_fd_limit = VK_FD_FEW;
	vk_fd_base = 700;
	vk_mono_ns = 1000000000000ll;
	vk_real_ns = 1700000000000000000ll;
	vk_clock_hook = NULL;
	vk_open_hook = NULL;
	vk_fsync_hook = NULL;
	vk_close_hook = NULL;
	vk_read_hook = NULL;
	vk_getrandom_hook = NULL;
	vk_abort_jb = NULL;
	vk_sleep_hook = NULL;
	vk_settime_hook = NULL;
	vk_ino_hook = NULL;
	for (i = 0; i < VK_INOS; i++)
		vk_inos[i].head = vk_inos[i].tail = 0;
	vk_ino_watches = 0;
	vk_all_points = 0;
	vk_tree_n = vk_tree_cwd = vk_tree_dots = vk_tree_dtype = vk_dirs_open =
		vk_tree_meta = 0;
	vk_open_flags = 0;
	vk_vfs_reset();
	sched_reset();
	errno = 0;
}
