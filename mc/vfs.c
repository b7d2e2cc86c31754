#define _GNU_SOURCE
#include "vfs.h"
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define N_INO 12
#define N_NAME 12
#define N_OPS 64
#define INJ(site, name, ...) \
	vk_inject(site, name, (const int[]){ __VA_ARGS__, 0 })

static struct vfs_inode ino[N_INO];
struct dent { char name[160]; int ino; };
static struct dent dir[N_NAME], ddir[N_NAME];	/* now; on the storage */
static int n_dir, n_ddir;
enum { M_CREATE, M_RENAME, M_UNLINK, M_TRUNC };
static struct { int kind; char a[160], b[160]; int ino, seq; } ops[N_OPS];
static int n_ops, seq;

struct handle {
	int used, ino, fd, dead, append, isdir;
	size_t pos;
	FILE *fp;
};
#define N_H 16
static struct handle hs[N_H];

int vfs_huge, vfs_active, vfs_crash_on, vfs_crashed_power;
int64_t vfs_huge_alt;
long vfs_ops;
jmp_buf vfs_crash_jb;

static size_t kept(size_t n)
{
	return n < VFS_DATA_MAX ? n : VFS_DATA_MAX;
}

static int dir_find(struct dent *d, int n, const char *name)
{
	int i;
	for (i = 0; i < n; i++)
		if (!strcmp(d[i].name, name))
			return i;
	return -1;
}

static void dir_put(struct dent *d, int *n, const char *name, int i)
{
	int k = dir_find(d, *n, name);
	if (k < 0) {
		if (*n == N_NAME)
			mc_broken("too many names");
		k = (*n)++;
		snprintf(d[k].name, sizeof(d[k].name), "%s", name);
	}
	d[k].ino = i;
}

static void dir_del(struct dent *d, int *n, const char *name)
{
	int k = dir_find(d, *n, name);
	if (k >= 0)
		d[k] = d[--*n];
}

static int ino_new(void)
{
	int i, k;
	for (i = 0; i < N_INO; i++) {
		int ref = 0;
		for (k = 0; k < n_dir; k++)
			ref |= dir[k].ino == i;
		for (k = 0; k < n_ddir; k++)
			ref |= ddir[k].ino == i;
		for (k = 0; k < n_ops; k++)
			ref |= ops[k].ino == i;
		for (k = 0; k < N_H; k++)
			ref |= hs[k].used && hs[k].ino == i;
		if (!ref)
			break;
	}
	if (i == N_INO)
		mc_broken("too many inodes");
	ino[i].used = 1;
	ino[i].curlen = ino[i].durlen = 0;
	ino[i].dirty = ino[i].poisoned = ino[i].seq_sync = 0;
	return i;
}

static void op_log(int kind, const char *a, const char *b, int i)
{
	if (n_ops == N_OPS)
		mc_broken("too many operations");
	ops[n_ops].kind = kind;
	snprintf(ops[n_ops].a, 160, "%s", a);
	snprintf(ops[n_ops].b, 160, "%s", b ? b : "");
	ops[n_ops].ino = i;
	ops[n_ops++].seq = ++seq;
	vfs_ops++;
	mc_log("fs: %s %s %s", kind == M_CREATE ? "create" :
	       kind == M_RENAME ? "rename" : kind == M_UNLINK ? "unlink" :
	       "truncate", a, b ? b : "");
}

void vfs_barrier(void)
{
	int i;
	memcpy(ddir, dir, sizeof(dir));
	n_ddir = n_dir;
	n_ops = 0;
	for (i = 0; i < n_dir; i++) {
		struct vfs_inode *o = &ino[dir[i].ino];
		memcpy(o->dur, o->cur, kept(o->curlen));
		o->durlen = o->curlen;
		o->dirty = o->poisoned = 0;
	}
}

void vk_vfs_reset(void)
{
	int i;
	for (i = 0; i < N_H; i++)
		if (hs[i].used) {
			hs[i].dead = 1;
			if (hs[i].fp)
				fclose(hs[i].fp);
			hs[i].used = 0;
		}
	n_dir = n_ddir = n_ops = seq = 0;
	vfs_crash_on = 0;
	vfs_active = vfs_huge = 0;
	vfs_huge_alt = -1;
	vfs_ops = 0;
}

void vfs_set(const char *name, const void *data, size_t len)
{
	int i = ino_new();
	memcpy(ino[i].cur, data, len);
	ino[i].curlen = len;
	dir_put(dir, &n_dir, name, i);
	vfs_barrier();
}

void vfs_remove(const char *name)
{
	dir_del(dir, &n_dir, name);
	vfs_barrier();
}

const struct vfs_inode *vfs_get(const char *name)
{
	int k = dir_find(dir, n_dir, name);
	return k < 0 ? NULL : &ino[dir[k].ino];
}

int vfs_is(const char *name, const void *data, size_t len)
{
	const struct vfs_inode *o = vfs_get(name);
	return o && o->curlen == len && !memcmp(o->cur, data, kept(len));
}

int vfs_count(void) { return n_dir; }

int vfs_open_count(void)
{
	int i, n = 0;
	for (i = 0; i < N_H; i++)
		n += hs[i].used;
	return n;
}

uint64_t vfs_hash(void)
{
	uint64_t h = 0;
	int i;
	for (i = 0; i < n_dir; i++)
		h += mc_hash(dir[i].name, strlen(dir[i].name),
			     mc_hash(ino[dir[i].ino].cur,
				     kept(ino[dir[i].ino].curlen), 5));
	return h;
}

char *vfs_list(void)
{
	static char buf[2000];
	size_t l = 0;
	int i;
	buf[0] = 0;
	for (i = 0; i < n_dir && l < 1800; i++) {
		struct vfs_inode *o = &ino[dir[i].ino];
		l += snprintf(buf + l, sizeof(buf) - l, " %s[%zu:%.8s]",
			      dir[i].name, o->curlen, o->curlen ?
			      (char[9]){ o->cur[0] > 32 && o->cur[0] < 127 ?
					 o->cur[0] : '.', 0 } : "");
	}
	return buf;
}

/* what the storage has after a power loss */
static void power_loss(void)
{
	int p = mc_choose(n_ops + 1, "metadata operations not persisted");
	int keep = n_ops - p, i, k;
	for (k = 0; k < keep; k++) {
		switch (ops[k].kind) {
		case M_CREATE:
			dir_put(ddir, &n_ddir, ops[k].a, ops[k].ino);
			break;
		case M_RENAME: {
			int d = dir_find(ddir, n_ddir, ops[k].a);
			if (d >= 0) {
				int t = ddir[d].ino;
				dir_del(ddir, &n_ddir, ops[k].a);
				dir_put(ddir, &n_ddir, ops[k].b, t);
			}
			break;
		}
		case M_UNLINK:
			dir_del(ddir, &n_ddir, ops[k].a);
			break;
		case M_TRUNC:
			if (ops[k].seq > ino[ops[k].ino].seq_sync)
				ino[ops[k].ino].durlen = 0;
			break;
		}
	}
	for (i = 0; i < n_ddir; i++) {
		struct vfs_inode *o = &ino[ddir[i].ino];
		int can = 1;
		for (k = keep; k < n_ops; k++)
			if (ops[k].kind == M_TRUNC &&
			    ops[k].ino == ddir[i].ino &&
			    ops[k].seq > o->seq_sync)
				can = 0;
		if (o->dirty && can) {
			switch (mc_choose(4, "unsynchronized data")) {
			case 0:
				break;	/* nothing */
			case 1:
				memcpy(o->dur, o->cur, kept(o->curlen));
				o->durlen = o->curlen;
				break;
			case 2:
				memcpy(o->dur, o->cur, kept(o->curlen / 2));
				o->durlen = o->curlen / 2;
				break;
			case 3:
				memset(o->dur, 0, kept(o->curlen));
				o->durlen = o->curlen;
				break;
			}
		}
		memcpy(o->cur, o->dur, kept(o->durlen));
		o->curlen = o->durlen;
		o->dirty = o->poisoned = 0;
	}
	memcpy(dir, ddir, sizeof(dir));
	n_dir = n_ddir;
	n_ops = 0;
}

void vfs_crash(void)
{
	int i;
	vfs_crashed_power = 0;
	for (i = 0; i < N_H; i++)
		if (hs[i].used) {
			hs[i].dead = 1;
			if (hs[i].fp)
				fclose(hs[i].fp);
			if (hs[i].used && vk_fd_get(hs[i].fd))
				vk_fd_get(hs[i].fd)->type = VKT_NONE;
			hs[i].used = 0;
		}
	if (vfs_crash_on == 2) {
		vfs_crashed_power = mc_choose(2, "power loss");
		if (vfs_crashed_power)
			power_loss();
	}
	mc_log("after the crash:%s", vfs_list());
	longjmp(vfs_crash_jb, 1);
}

void vfs_crash_point(const char *where)
{
	if (!vfs_crash_on)
		return;
	if (mc_choose(2, where)) {
		mc_log("crash before: %s", where);
		vfs_crash();
	}
}

/* ---- primitive operations ---- */
static struct handle *h_new(int i)
{
	int k, fd = vk_fd_alloc(VKT_FILE);
	if (fd < 0)
		return NULL;
	for (k = 0; k < N_H; k++)
		if (!hs[k].used) {
			memset(&hs[k], 0, sizeof(hs[k]));
			hs[k].used = 1;
			hs[k].ino = i;
			hs[k].fd = fd;
			vk_fd_get(fd)->priv = &hs[k];
			return &hs[k];
		}
	mc_broken("too many handles");
}

static struct handle *h_open(const char *path, int flags, int site)
{
	int k, i, e;
	struct handle *h;
	int acc = flags & O_ACCMODE;
	e = INJ(site, "open file", acc == O_RDONLY ? EIO : ENOSPC);
	if (e) {
		errno = e;
		return NULL;
	}
	if (!path) {
		errno = EFAULT;
		return NULL;
	}
	if (strlen(path) >= 160) {
		errno = ENAMETOOLONG;
		return NULL;
	}
	k = dir_find(dir, n_dir, path);
	if (k < 0 && !(flags & O_CREAT)) {
		size_t l = strlen(path);
		int d;
		for (d = 0; d < n_dir; d++)
			if (!strcmp(path, ".") || !strcmp(path, "/") ||
			    (!strncmp(dir[d].name, path, l) &&
			     (dir[d].name[l] == '/' ||
			      (l && path[l - 1] == '/')))) {
				h = h_new(-1);
				if (h)
					h->isdir = 1;
				return h;
			}
		errno = ENOENT;
		return NULL;
	}
	if (k >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) {
		errno = EEXIST;
		return NULL;
	}
	if (k < 0) {
		vfs_crash_point("create");
		i = ino_new();
		dir_put(dir, &n_dir, path, i);
		op_log(M_CREATE, path, NULL, i);
	} else {
		i = dir[k].ino;
		if ((flags & O_TRUNC) && acc != O_RDONLY && ino[i].curlen) {
			vfs_crash_point("truncate");
			ino[i].curlen = 0;
			ino[i].dirty = 1;
			op_log(M_TRUNC, path, NULL, i);
		}
	}
	h = h_new(i);
	if (!h) {
		errno = EMFILE;
		return NULL;
	}
	h->append = !!(flags & O_APPEND);
	return h;
}

static ssize_t h_write(struct handle *h, const char *buf, size_t n)
{
	struct vfs_inode *o;
	size_t len = n;
	int e;
	if (h->dead)
		return n;
	if (!n)
		return 0;
	o = &ino[h->ino];
	e = INJ(VKF_FWRITE, "write file", ENOSPC, EIO);
	if (e == EIO)
		len = n / 2;	/* part of it is written, then the error */
	else if (e)
		len = 0;
	if (len) {
		vfs_crash_point("write");
		if (h->append)
			h->pos = o->curlen;
		if (h->pos + len > VFS_DATA_MAX && !vfs_huge)
			mc_broken("file too large");
		if (h->pos > o->curlen)
			memset(o->cur + kept(o->curlen), 0,
			       kept(h->pos) - kept(o->curlen));
		memcpy(o->cur + kept(h->pos), buf,
		       kept(h->pos + len) - kept(h->pos));
		h->pos += len;
		if (h->pos > o->curlen)
			o->curlen = h->pos;
		o->dirty = 1;
		vfs_ops++;
		mc_log("fs: write %zu bytes", len);
	}
	if (e) {
		errno = e;
		return -1;
	}
	return n;
}

static ssize_t h_read(struct handle *h, char *buf, size_t n)
{
	struct vfs_inode *o = &ino[h->ino];
	size_t k;
	int e;
	if (h->dead)
		return 0;
	e = INJ(VKF_FREAD, "read file", EIO);
	if (e) {
		errno = e;
		return -1;
	}
	if (h->pos >= o->curlen)
		return 0;
	if (n > o->curlen - h->pos)
		n = o->curlen - h->pos;
	k = kept(h->pos + n) - kept(h->pos);
	memcpy(buf, o->cur + kept(h->pos), k);
	memset(buf + k, VFS_FILLER, n - k);
	if (vfs_huge_alt >= (int64_t)h->pos &&
	    vfs_huge_alt < (int64_t)(h->pos + n))
		buf[vfs_huge_alt - h->pos] ^= 1;
	h->pos += n;
	return n;
}

static int h_seek(struct handle *h, off_t *off, int whence)
{
	struct vfs_inode *o = &ino[h->ino];
	off_t p = whence == SEEK_SET ? 0 : whence == SEEK_CUR ?
		(off_t)h->pos : (off_t)o->curlen;
	p += *off;
	if (p < 0) {
		errno = EINVAL;
		return -1;
	}
	h->pos = p;
	*off = p;
	return 0;
}

static int h_fsync(struct handle *h)
{
	struct vfs_inode *o;
	int e;
	e = INJ(VKF_FSYNC, "fsync file", EIO);
	if (h->isdir) {
		if (e) {
			errno = e;
			return -1;
		}
		memcpy(ddir, dir, sizeof(dir));
		n_ddir = n_dir;
		n_ops = 0;
		return 0;
	}
	o = &ino[h->ino];
	if (e) {
		/* the pages which could not be written are marked clean */
		if (e == EIO || e == ENOSPC || e == EDQUOT)
			o->poisoned = 1;
		errno = e;
		return -1;
	}
	vfs_crash_point("fsync");
	vfs_ops++;
	mc_log("fs: fsync");
	if (!o->poisoned) {
		memcpy(o->dur, o->cur, kept(o->curlen));
		o->durlen = o->curlen;
		o->dirty = 0;
		o->seq_sync = ++seq;
	}
	return 0;
}

static int h_close(struct handle *h)
{
	int e;
	if (h->used && vk_fd_get(h->fd))
		vk_fd_get(h->fd)->type = VKT_NONE;
	h->used = 0;
	if (h->dead)
		return 0;
	e = INJ(VKF_CLOSE, "close file", EIO);
	if (e) {
		errno = e;
		return -1;
	}
	return 0;
}

/* ---- stdio ---- */
static ssize_t c_read(void *c, char *b, size_t n) { return h_read(c, b, n); }
static ssize_t c_write(void *c, const char *b, size_t n)
{
	ssize_t r = h_write(c, b, n);
	return r < 0 ? 0 : r;
}
static int c_seek(void *c, off64_t *o, int w) { return h_seek(c, o, w); }
static int c_close(void *c)
{
	struct handle *h = c;
	h->fp = NULL;
	return h_close(h);
}

static FILE *h_stdio(struct handle *h, const char *mode)
{
	cookie_io_functions_t f = { c_read, c_write, c_seek, c_close };
	h->fp = fopencookie(h, mode, f);
	if (!h->fp)
		mc_broken("fopencookie");
	return h->fp;
}

FILE *vk_fopen(const char *path, const char *mode)
{
	int flags = *mode == 'r' ? O_RDONLY : *mode == 'w' ?
		O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	struct handle *h;
	if (strchr(mode, '+'))
		flags = (flags & ~O_ACCMODE) | O_RDWR;
	if (strchr(mode, 'x'))
		flags |= O_EXCL;
	if (!vfs_active)
		mc_broken("fopen without a file system");
	h = h_open(path, flags, VKF_FOPEN);
	return h ? h_stdio(h, mode) : NULL;
}

FILE *vk_freopen(const char *p, const char *m, FILE *f)
{
	(void)p; (void)m; (void)f;
	mc_broken("freopen is not modelled");
}

FILE *vk_fdopen(int fd, const char *mode)
{
	struct vk_fd *f = vk_fd_get(fd);
	if (!f || f->type != VKT_FILE) {
		errno = EBADF;
		return NULL;
	}
	return h_stdio(f->priv, mode);
}

int vk_fileno(FILE *f)
{
	int i;
	for (i = 0; i < N_H; i++)
		if (hs[i].used && hs[i].fp == f)
			return hs[i].fd;
	if (f == stdin || f == stdout || f == stderr)
		return fileno(f);
	errno = EBADF;
	return -1;
}

int vk_fclose(FILE *f)
{
	int i;
	for (i = 0; i < N_H; i++)
		if (hs[i].used && hs[i].fp == f)
			return fclose(f);
	mc_fail("fclose() of a file which is not open");
}

/* ---- calls on names ---- */
int vk_rename(const char *a, const char *b)
{
	int k, e = INJ(VKF_RENAME, "rename", EIO);
	if (e) {
		errno = e;
		return -1;
	}
	k = dir_find(dir, n_dir, a);
	if (k < 0) {
		errno = ENOENT;
		return -1;
	}
	vfs_crash_point("rename");
	e = dir[k].ino;
	dir_del(dir, &n_dir, a);
	dir_put(dir, &n_dir, b, e);
	op_log(M_RENAME, a, b, e);
	return 0;
}
int vk_renameat(int d, const char *a, int d2, const char *b)
{
	(void)d;
	(void)d2;
	return vk_rename(a, b);
}

int vk_unlink(const char *a)
{
	int k, e;
	k = dir_find(dir, n_dir, a);
	if (k < 0) {
		errno = ENOENT;
		return -1;
	}
	e = INJ(VKF_UNLINK, "unlink", EIO);
	if (e) {
		errno = e;
		return -1;
	}
	vfs_crash_point("unlink");
	e = dir[k].ino;
	dir_del(dir, &n_dir, a);
	op_log(M_UNLINK, a, NULL, e);
	return 0;
}
int vk_unlinkat(int d, const char *a, int fl)
{
	(void)d;
	(void)fl;
	return vk_unlink(a);
}
int vk_remove(const char *a) { return vk_unlink(a); }
int vk_link(const char *a, const char *b)
{
	(void)a; (void)b;
	mc_broken("link is not modelled");
}
int vk_access(const char *a, int mode)
{
	(void)mode;
	if (dir_find(dir, n_dir, a) < 0) {
		errno = ENOENT;
		return -1;
	}
	return 0;
}
int vk_truncate(const char *a, off_t n)
{
	(void)a; (void)n;
	mc_broken("truncate is not modelled");
}
int vk_ftruncate(int fd, off_t n)
{
	(void)fd; (void)n;
	mc_broken("ftruncate is not modelled");
}

/* ---- descriptors on the file system (called by vk.c) ---- */
int vfs_open(const char *path, int flags)
{
	struct handle *h = h_open(path, flags, VKF_OPEN);
	if (!h)
		return -1;
	vk_fd_get(h->fd)->flags = flags;
	vk_fd_get(h->fd)->fdflags = flags & O_CLOEXEC ? FD_CLOEXEC : 0;
	return h->fd;
}
ssize_t vfs_fd_read(struct vk_fd *f, void *b, size_t n)
{
	return h_read(f->priv, b, n);
}
ssize_t vfs_fd_write(struct vk_fd *f, const void *b, size_t n)
{
	return h_write(f->priv, b, n);
}
int vfs_fd_fsync(struct vk_fd *f) { return h_fsync(f->priv); }
int vfs_fd_close(struct vk_fd *f) { return h_close(f->priv); }
off_t vk_lseek(int fd, off_t off, int whence)
{
	struct vk_fd *f = vk_fd_get(fd);
	if (!f || f->type != VKT_FILE) {
		errno = EBADF;
		return -1;
	}
	return h_seek(f->priv, &off, whence) < 0 ? -1 : off;
}
int vfs_stat(const char *path, struct stat *st)
{
	const struct vfs_inode *o = vfs_get(path);
	if (!o) {
		errno = ENOENT;
		return -1;
	}
	memset(st, 0, sizeof(*st));
	st->st_mode = S_IFREG | 0644;
	st->st_size = o->curlen;
	st->st_nlink = 1;
	return 0;
}
int vfs_fstat(struct vk_fd *f, struct stat *st)
{
	struct handle *h = f->priv;
	memset(st, 0, sizeof(*st));
	st->st_mode = h->isdir ? S_IFDIR : S_IFREG | 0644;
	if (!h->isdir)
		st->st_size = ino[h->ino].curlen;
	st->st_nlink = 1;
	return 0;
}
