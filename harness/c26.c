/* C26: threads which use different objects do not interfere. Every pair of
 * operations, in every interleaving of their system calls to a preemption
 * bound, with the race detector: each gives what it gives alone. */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include "vfs.h"
#include "fibers.h"
#include "rnd.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdio.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <futils/futils.h>
#include <futils/fs.h>
#include <futils/inotify.h>

uint64_t c26_cpp(int k, int inst);
#define A(v) (h = mc_mix(h, (uint64_t)(v)))
#define AB(p, n) (h = mc_hash(p, n, h))

/* between two calls of the library */
static void step(void) { sched_point("call", &vk_all_points); }

/* ---- operations: what they return does not depend on the addresses, the
 * numbers of the descriptors nor the clock ---- */
static uint64_t op_dynmbox(int i)
{
	struct dynmbox *b = dynmbox_new(40 + i);
	char m[64], o[64];
	uint64_t h = 1;
	int k;
	ssize_t r;
	A(b != NULL);
	if (!b)
		return h;
	A(dynmbox_get_max_size(b));
	for (k = 0; k < 2; k++) {
		memset(m, 'a' + i * 3 + k, sizeof(m));
		step();
		A(k ? dynmbox_push_block(b, m, 20 + i, 100) :
		  dynmbox_push(b, m, 7 + i));
	}
	A(dynmbox_push(b, m, 100));
	for (k = 0; k < 3; k++) {
		step();
		memset(o, 0, sizeof(o));
		r = dynmbox_peek(b, o);
		A(r);
		AB(o, sizeof(o));
	}
	A(vk_fd_readable(dynmbox_get_read_fd(b)));
	dynmbox_destroy(b);
	return h;
}

static uint64_t op_mbox(int i)
{
	struct mbox *b = mbox_new(8 + i * 4);
	char m[64], o[64];
	uint64_t h = 2;
	int k;
	A(b != NULL);
	if (!b)
		return h;
	for (k = 0; k < 2; k++) {
		memset(m, 'p' + i * 3 + k, sizeof(m));
		step();
		A(k ? mbox_push_block(b, m, 100) : mbox_push(b, m));
	}
	for (k = 0; k < 3; k++) {
		step();
		memset(o, 0, sizeof(o));
		A(mbox_peek(b, o));
		AB(o, sizeof(o));
	}
	A(vk_fd_readable(mbox_get_read_fd(b)));
	mbox_destroy(b);
	return h;
}

static int freed[SCHED_MAX];
static void free0(void *p) { freed[0]++; (void)p; }
static void free1(void *p) { freed[1]++; (void)p; }
static void free2(void *p) { freed[2]++; (void)p; }
static void (*const frees[])(void *) = { free0, free1, free2 };
static uint64_t op_hash(int i)
{
	struct hash t;
	uint64_t h = 3;
	int k;
	static int vals[16];
	void *d;
	freed[i] = 0;
	A(futils_hash_init(&t, 3 + i, frees[i]));
	for (k = 0; k < 5; k++) {
		step();
		A(futils_hash_insert(&t, k * (5 + i), &vals[k + i]));
	}
	A(futils_hash_insert(&t, 5 + i, &vals[9]));
	A(futils_hash_insert_const(&t, 77 + i, &vals[i]));
	A(futils_hash_insert_const(&t, 77 + i, &vals[i]));
	A(futils_hash_remove(&t, 2 * (5 + i)));
	for (k = 0; k < 6; k++) {
		step();
		d = NULL;
		A(futils_hash_lookup(&t, k * (5 + i), &d));
		A(d ? (int *)d - vals : -1);
	}
	A(freed[i]);
	A(futils_hash_remove_all(&t));
	A(freed[i]);
	A(futils_hash_lookup(&t, 0, &d));
	A(futils_hash_destroy(&t));
	return h;
}

/* the same table, only looked at */
static struct hash shared_t;
static int shared_v[8];
static uint64_t op_lookup(int i)
{
	uint64_t h = 4;
	int k, j;
	for (j = 0; j < 3; j++)
		for (k = 0; k < 8; k++) {
			void *d = NULL;
			const void *c = NULL;
			uint32_t key = (k + i * 3) % 8;
			step();
			A(futils_hash_lookup(&shared_t, key, &d));
			A(d ? (int *)d - shared_v : -1);
			A(futils_hash_lookup_const(&shared_t, key, &c));
			A(c ? (const int *)c - shared_v : -1);
		}
	return h;
}

static uint64_t ino_h[SCHED_MAX];
static void on_ev(struct inotify_event *ev, void *data)
{
	uint64_t *h = data;
	step();		/* the other thread runs during the callback */
	*h = mc_mix(*h, ev->wd + ev->mask * 3ull + ev->cookie * 7ull +
		    ev->len * 11ull);
	*h = mc_hash(ev->name, ev->len, *h);
}
static uint64_t op_inotify(int i)
{
	int fd = inotify_create("/x", IN_CREATE), k;
	struct vk_ino *q;
	uint64_t h = 5;
	A(fd >= 0);
	if (fd < 0)
		return h;
	q = &vk_inos[vk_fd_get(fd)->pos];
	for (k = 0; k < 2; k++) {
		struct vk_ino_ev *e = &q->q[q->tail];
		e->wd = 1 + k + i * 10;
		e->mask = 0x100 << i;
		e->cookie = i * 77 + k;
		e->len = 16 + 240 * i * k;
		memset(e->name, 0, e->len);
		memset(e->name, 'n' + i, e->len - 3);
		q->tail = (q->tail + 1) % VK_INO_EVS;
	}
	ino_h[i] = 0;
	inotify_process_fd(fd, on_ev, &ino_h[i]);
	A(ino_h[i]);
	inotify_destroy(fd);
	return h;
}

static uint64_t op_fd(int i)
{
	int p[2];
	uint64_t h = 6;
	A(vk_pipe_create(p));
	A(fd_has_close_on_exec(p[i & 1]));
	step();
	A(fd_set_close_on_exec(p[i & 1]));
	A(fd_has_close_on_exec(p[0]));
	step();
	A(fd_has_close_on_exec(p[1]));
	A(fd_add_flags(p[1 - (i & 1)], O_NONBLOCK));
	A(vk_fd_get(p[0])->flags & O_NONBLOCK);
	A(vk_fd_get(p[1])->flags & O_NONBLOCK);
	vk_close(p[0]);
	vk_close(p[1]);
	return h;
}

static uint64_t op_dirsize(int i)
{
	uint64_t h = 7;
	A(futils_fs_dir_size(i == 0 ? "/t0" : i == 1 ? "/t1" : "/t2/", true));
	return h;
}

static int nsync[VK_NODES];
static int on_fsync(int fd, int d)
{
	(void)d;
	nsync[vk_fd_get(fd)->pos]++;
	return 0;
}
static uint64_t op_sync(int i)
{
	static const char *const f[] = { "/t0/f", "/t1/f", "/t2/f" };
	static const char *const d[] = { "/t0/d", "/t1/d", "/t2/d" };
	uint64_t h = 8;
	int a = vk_node_find(f[i], 1), b = vk_node_find(d[i], 1);
	A(sync_file(f[i]));
	A(nsync[a]);
	A(sync_folder(d[i]));
	A(nsync[b]);
	return h;
}
static uint64_t op_sync2(int i)
{
	static const char *const f[] = { "/t0/d/g", "/t1/d/g", "/t2/d/g" };
	static const char *const d[] = { "/t0/d", "/t1/d", "/t2/d" };
	uint64_t h = 9;
	A(sync_file_and_folder(f[i]));
	A(nsync[vk_node_find(f[i], 1)] > 0);
	A(nsync[vk_node_find(d[i], 1)] > 0);
	return h;
}

static uint64_t safew(int i, int how)
{
	static const char *const f[] = { "/v/a", "/v/bb", "/v/c" };
	struct futils_safew_file *s;
	char b[80], c[20];
	const struct vfs_inode *o;
	uint64_t h = 10 + how;
	memset(b, 'A' + i * 5 + how, sizeof(b));
	s = futils_safew_fopen(f[i]);
	A(s != NULL);
	if (!s)
		return h;
	A(futils_safew_fwrite(b, 1, 30 + i * 7, s));
	A(futils_safew_fprintf(s, "%d %s", i * 1000 + how, i ? "one" : "zero"));
	A(how == 0 ? futils_safew_fclose_commit(s) : how == 1 ?
	  futils_safew_fclose_commit_with_crc(s) :
	  futils_safew_fclose_rollback(s));
	if (how == 1)
		A(futils_safew_file_check(f[i]));
	o = vfs_get(f[i]);
	A(o != NULL);
	if (o)
		AB(o->cur, o->curlen);
	sprintf(c, "%s.crc", f[i]);
	o = vfs_get(c);
	A(o != NULL);
	if (o)
		AB(o->cur, o->curlen);
	return h;
}
/* the check of what crashes leave */
static struct { uint8_t d[2][64], c[2][8]; size_t dn[2], cn[2]; } ver[3];
static const char *const chk_f[] = { "/v/x", "/v/yy", "/v/z" };
static void versions(void)
{
	char b[40];
	int i, k;
	for (i = 0; i < 3; i++)
		for (k = 0; k < 2; k++) {
			const struct vfs_inode *o;
			struct futils_safew_file *s = futils_safew_fopen(
					chk_f[i]);
			memset(b, 'K' + i * 3 + k, sizeof(b));
			if (!s || futils_safew_fwrite(b, 1, 20 + i + k * 5, s)
			    < 0 || futils_safew_fclose_commit_with_crc(s))
				return;	/* of another property */
			o = vfs_get(chk_f[i]);
			if (!o || o->curlen > sizeof(ver[i].d[k]))
				return;
			memcpy(ver[i].d[k], o->cur, ver[i].dn[k] = o->curlen);
			sprintf(b, "%s.crc", chk_f[i]);
			o = vfs_get(b);
			vfs_barrier();
			if (!o || o->curlen > sizeof(ver[i].c[k]))
				return;
			memcpy(ver[i].c[k], o->cur, ver[i].cn[k] = o->curlen);
		}
}
static uint64_t op_check(int i)
{
	/* the version of the file, of its checksum, of the temporary file and
	 * of its checksum, 0 for none */
	static const char st[][5] = { "1122", "1120", "1102", "2102", "0122",
		"1022", "0022", "2002", "1212", "2011" };
	static const char *const suf[] = { "", ".crc", ".tmp", ".crc.tmp" };
	char n[40];
	uint64_t h = 25;
	int k, j;
	for (k = 0; k < (int)(sizeof(st) / sizeof(st[0])); k++) {
		for (j = 0; j < 4; j++) {
			int v = st[k][j] - '1';
			sprintf(n, "%s%s", chk_f[i], suf[j]);
			if (v < 0)
				vfs_remove(n);
			else if (j & 1)
				vfs_set(n, ver[i].c[v], ver[i].cn[v]);
			else
				vfs_set(n, ver[i].d[v], ver[i].dn[v]);
		}
		vfs_barrier();
		A(futils_safew_file_check(chk_f[i]));
		for (j = 0; j < 4; j++) {
			const struct vfs_inode *o;
			sprintf(n, "%s%s", chk_f[i], suf[j]);
			o = vfs_get(n);
			A(o != NULL);
			if (o)
				AB(o->cur, o->curlen);
			if (o)
				vfs_remove(n);
		}
	}
	return h;
}
static uint64_t op_dynblock(int i)
{
	static const char m[32000];
	struct dynmbox *b = dynmbox_new(32000 + i);
	static char o[3][32768];
	uint64_t h = 26;
	int k;
	A(b != NULL);
	if (!b)
		return h;
	for (k = 0; k < 2; k++)
		A(dynmbox_push(b, m, 32000));
	A(dynmbox_push_block(b, m, 2000, 10 + i * 20));
	step();
	A(dynmbox_peek(b, o[i]));
	A(dynmbox_push_block(b, m, 2000, 10 + i * 20));
	dynmbox_destroy(b);
	return h;
}

static uint64_t op_commit(int i) { return safew(i, 0); }
static uint64_t op_crc(int i) { return safew(i, 1); }
static uint64_t op_rollback(int i) { return safew(i, 2); }

static uint64_t op_cal(int i)
{
	static const uint64_t es[] = { 1582979455, 4102444800ull, 86399 };
	char b[64];
	struct tm tm;
	uint64_t h = 13, e;
	int32_t off;
	int k;
	for (k = 0; k < 3; k++) {
		step();
		memset(b, 0, sizeof(b));
		A(time_local_format(es[i], k == 2 ? 0 : (i - 1) * 5400,
				    k == 0 ? TIME_FMT_SHORT : k == 1 ?
				    TIME_FMT_LONG : TIME_FMT_RFC1123, b,
				    sizeof(b)));
		AB(b, sizeof(b));
		e = off = 0;
		A(time_local_parse(b, &e, &off));
		A(e);
		A(off);
	}
	memset(&tm, 0, sizeof(tm));
	A(time_local_to_tm(es[i], i * 3600, &tm));
	A(tm.tm_year * 1000 + tm.tm_yday);
	A(tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec);
	step();
	A(time_local_from_tm(&tm, &e, &off));
	A(e);
	A(off);
	return h;
}

static uint64_t op_ctx(int i)
{
	struct time_ctx c;
	uint64_t h = 14, e = 0;
	int32_t off = 0;
	A(time_ctx_init(&c));
	step();
	A(time_ctx_set_date(&c, i ? "2020-02-29" : "1999-12-31"));
	step();
	A(time_ctx_get_local(&c, &e, &off));
	A(time_ctx_set_hour(&c, i ? "T235959+0130" : "T000001-0800"));
	step();
	A(time_ctx_get_local(&c, &e, &off));
	A(e);
	A(off);
	A(time_ctx_set_time(&c, i ? "T101112Z" : "bad"));
	A(time_ctx_init(&c));
	step();
	A(time_ctx_set_time(&c, i ? "T101112Z" : "bad"));
	A(time_ctx_set_time(&c, i ? "2021-03-04T101112Z" :
			    "2032-12-11T010203+0200"));
	step();
	A(time_ctx_get_local(&c, &e, &off));
	A(e);
	A(off);
	return h;
}

static int64_t set_to[8];
static int on_settime(const struct timespec *ts)
{
	set_to[sched_self() & 7] = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	return 0;
}

static uint64_t op_wall(int i)
{
	uint64_t h = 15, e = 0, m = 0;
	uint16_t ms = 0;
	int32_t off = 0;
	struct timespec t1, t2, d;
	A(time_local_get(&e, &off));
	A(off);
	A(e > 1600000000);
	A(time_local_ms_get(&e, &ms, &off));
	A(ms < 1000);
	A(time_get_monotonic(&t1));
	A(time_get_realtime(&t2));
	A(t2.tv_sec > t1.tv_sec);
	A(time_timespec_diff_now(&t1, &d));
	A(time_timespec_to_us(&t1, &m));
	A(time_monotonic_to_realtime_us(m, &e));
	A(e > m);
	A(time_monotonic_to_realtime_ms(m / 1000, &e));
	A(e > m / 1000);
	A(time_msleep(1 + i));
	A(time_local_set(1700000000 + 1000 * i, 3600 * i));
	A(set_to[sched_self() & 7]);
	return h;
}

static uint64_t op_ts(int i)
{
	struct timespec a = { 100 + i, 999999999 - i }, b = { 7 * i, 5 }, d;
	struct timeval tv = { 3 + i, 999999 };
	uint64_t h = 16, u = 0;
	uint32_t ms = 0;
	int sg = 0, k;
	for (k = 0; k < 2; k++) {
		step();
		A(time_timespec_diff(&b, &a, &d));
		A(d.tv_sec), A(d.tv_nsec);
		A(time_timespec_diff_us(&a, &b, &u, &sg));
		A(u), A(sg);
		A(time_timespec_diff_in_range(&a, &b, 1000, &u));
		A(u);
		A(time_timespec_to_ns(&a, &u)), A(u);
		A(time_timespec_to_ms(&a, &u)), A(u);
		A(time_ns_to_timespec(&u, &d)), A(d.tv_sec), A(d.tv_nsec);
		A(time_us_to_timespec(&u, &d)), A(d.tv_sec), A(d.tv_nsec);
		A(time_ms_to_timespec(&u, &d)), A(d.tv_sec), A(d.tv_nsec);
		A(time_timespec_cmp(&a, &b));
		A(time_timespec_add_us(&a, -1234567 - i, &d));
		A(d.tv_sec), A(d.tv_nsec);
		A(time_timespec_add_ns(&d, 5000000000 + i, &d));
		A(d.tv_sec), A(d.tv_nsec);
		A(time_timeval_to_timespec(&tv, &d)), A(d.tv_sec);
		A(d.tv_nsec);
		A(time_timeval_to_ms(&tv, &ms)), A(ms);
	}
	return h;
}

static uint64_t op_varint(int i)
{
	uint8_t b[16];
	uint64_t h = 17, v64 = 0;
	uint32_t v32 = 0;
	uint16_t v16 = 0;
	int64_t s64 = 0;
	int32_t s32 = 0;
	int16_t s16 = 0;
	size_t n = 0;
	int k;
#define VI(T, x, v) do { step(); memset(b, 0, 16); \
	A(futils_varint_write_##T(b, sizeof(b), x, &n)), A(n), AB(b, 16); \
	step(); A(futils_varint_read_##T(b, n, &v, &n)), A(v), A(n); } while (0)
	for (k = 0; k < 2; k++) {
		VI(u16, 300 * (i + 1) + k, v16);
		VI(i16, -300 * (i + 1) + k, s16);
		VI(u32, 300000000u * (i + 1) + k, v32);
		VI(i32, -300000000 * (i + 1) + k, s32);
		VI(u64, 300000000000000ull * (i + 1) + k, v64);
		VI(i64, -300000000000000ll * (i + 1) + k, s64);
	}
	return h;
}

static uint64_t op_utf8(int i)
{
	static const char *const s[] = { "a\xc3\xa9z\xff!", "\xe2\x82\xacuro\xc0",
		"\xf0\x9f\x98\x80\x80" };
	static const wchar_t *const fb[] = { L"z", NULL, L"\u20acu" };
	static const char *const good[] = { "abz\xc3\xa9z", "\xe2\x82\xacuro",
		"\xf0\x9f\x98\x80 and \xe2\x82\xac" };
	char o[64];
	uint64_t h = 18;
	int k;
	A(futils_string_sanitize_utf8(good[i], o, sizeof(o), fb[i], L"?_#"[i]));
	AB(o, strlen(o));
	A(futils_string_check_utf8(good[i], 0, 0, fb[i]));
	for (k = 0; k < 2; k++) {
		step();
		memset(o, 0, sizeof(o));
		A(futils_string_check_utf8(s[(i + k) % 3], 40, 5, fb[i]));
		A(futils_string_sanitize_utf8(s[(i + k) % 3], o, sizeof(o),
					      fb[i], L"?_#"[i]));
		AB(o, sizeof(o));
	}
	return h;
}

/* the generator is shared: only what holds whatever it gives */
static uint64_t op_rnd(int i)
{
	char b[600], c[64];
	uint64_t h = 19, u64 = 0;
	uint32_t u32 = 0;
	uint16_t u16 = 0;
	uint8_t u8 = 0;
	int k, n;
	memset(b, 0, sizeof(b));
	futils_random(b, i ? 520 : 40);
	for (k = 0, n = 0; k < 600; k++)
		n += b[k] == 0;
	A(n < 590);
	step();
	A(futils_randomr32_maximum(5 + i) <= 5u + i);
	A(futils_randomr64_maximum(1ull << 40) <= 1ull << 40);
	A(futils_randomr8_maximum(9) <= 9);
	A(futils_randomr16_maximum(300 + i) <= 300 + i);
	futils_randomr8(), futils_randomr16();
	futils_randomr32(), futils_randomr64();
	A(futils_random8(&u8)), A(futils_random16(&u16));
	A(futils_random32(&u32)), A(futils_random64(&u64));
	A(futils_random8_maximum(&u8, 3)), A(u8 <= 3);
	A(futils_random16_maximum(&u16, 1000)), A(u16 <= 1000);
	A(futils_random32_maximum(&u32, 70000)), A(u32 <= 70000);
	A(futils_random64_maximum(&u64, 70000)), A(u64 <= 70000);
	for (k = 8; k < 64; k += 4)
		A(futils_randomr64_maximum((5ull << k) >> 3) <=
		  (5ull << k) >> 3);
	for (k = 0; k < 32; k += 4)
		A(futils_randomr32_maximum(3u << k >> 1) <= 3u << k >> 1);
	A(futils_random_bytes(b, 33));
	A(futils_randomrf() < 1);
	A(futils_randomrd() < 1);
	step();
	A(futils_random_base16(c, sizeof(c), 5 + i));
	A(strlen(c));
	A(strspn(c, "0123456789abcdefABCDEF") == strlen(c));
	A(futils_random_base32(c, sizeof(c), 5 + i));
	A(strlen(c));
	A(strspn(c, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567=") == strlen(c));
	A(futils_random_base64(c, sizeof(c), 5 + i));
	A(strlen(c));
	A(futils_random_base16(b, sizeof(b), 20 + i));
	A(futils_random_base32(b, sizeof(b), 21 + i));
	A(futils_random_base64(b, sizeof(b), 20 + i));
	A(futils_random_string(c, sizeof(c), 9 + i, i ? "xyz" : "ab"));
	A(strspn(c, i ? "xyz" : "ab"));
	A(futils_random_shuffle(c, 9 + i, 1));
	A(strspn(c, i ? "xyz" : "ab"));
	return h;
}
static uint64_t op_reseed(int i)
{
	uint64_t h = 20;
	char c[16];
	(void)i;
	A(futils_random_reseed());
	step();
	futils_random(c, sizeof(c));
	A(futils_random_strong(c, sizeof(c)));
	return h;
}

/* without the system call: from the device */
static int no_call[SCHED_MAX + 1];
static ssize_t my_getrandom(void *buf, size_t n, unsigned flags)
{
	if (no_call[sched_self() + 1]) {
		errno = ENOSYS;
		return -1;
	}
	return rnd_getrandom(buf, n, flags);
}
static ssize_t my_read(int fd, void *buf, size_t n)
{
	(void)fd;
	return rnd_getrandom(buf, n > 20 ? 20 : n, 0);
}
static uint64_t op_device(int i)
{
	uint64_t h = 27;
	char c[70 + 10 * 3];
	int k, n;
	no_call[sched_self() + 1] = 1;
	memset(c, 0, sizeof(c));
	A(futils_random_strong(c, 50 + i * 10));
	for (k = 0, n = 0; k < 50; k++)
		n += !c[k];
	A(n < 20);
	step();
	A(futils_random_reseed());
	futils_random(c, 10);
	no_call[sched_self() + 1] = 0;
	return h;
}

static uint64_t op_cpp0(int i) { return c26_cpp(0, i); }
static uint64_t op_cpp1(int i) { return c26_cpp(1, i); }
static uint64_t op_cpp2(int i) { return c26_cpp(2, i); }

static const struct op { const char *name; uint64_t (*fn)(int); } op[] = {
	{ "dynmbox", op_dynmbox }, { "mbox", op_mbox }, { "hash", op_hash },
	{ "lookup in one table", op_lookup }, { "inotify", op_inotify },
	{ "descriptor flags", op_fd }, { "directory size", op_dirsize },
	{ "sync", op_sync }, { "sync with folder", op_sync2 },
	{ "safew commit", op_commit }, { "safew checksum", op_crc },
	{ "safew rollback", op_rollback }, { "calendar", op_cal },
	{ "time context", op_ctx }, { "clocks", op_wall },
	{ "timespec", op_ts }, { "varint", op_varint }, { "utf8", op_utf8 },
	{ "random", op_rnd }, { "reseed", op_reseed }, { "dirname", op_cpp0 },
	{ "random device", op_device }, { "lower", op_cpp1 }, { "prefix", op_cpp2 },
	{ "checksum recovery", op_check }, { "full dynmbox", op_dynblock },
};
#define NOP (int)(sizeof(op) / sizeof(op[0]))
static uint64_t alone[NOP][3];
static uint8_t *tls_fresh;

static void node(int p, int depth, int i)
{
	int d, k;
	char n[8];
	vk_node_add(p, "f", S_IFREG, 5 + i * 100 + depth);
	vk_node_add(p, "g", S_IFREG, 1000 * i + depth);
	d = vk_node_add(p, "d", S_IFDIR, 4096);
	for (k = 0; k < 2; k++) {
		sprintf(n, "n%d", k + i);
		vk_node_add(d, n, S_IFREG, 7 + k);
	}
	if (depth)
		node(d, depth - 1, i);
	else
		vk_node_add(d, "g", S_IFREG, 3);
}

static void setup(void)
{
	int i;
	char n[8];
	rnd_seed_no = 1;
	rnd_ctr = 0;
	vk_getrandom_hook = my_getrandom;
	vk_read_hook = my_read;
	memset(no_call, 0, sizeof(no_call));
	vfs_active = 2;
	vk_tree_n = 0;
	vk_node_add(0, "", S_IFDIR, 4096);
	for (i = 0; i < 3; i++) {
		sprintf(n, "t%d", i);
		node(vk_node_add(0, n, S_IFDIR, 4096), i == 2, i);
	}
	i = vk_node_add(0, "dev", S_IFDIR, 4096);
	vk_node_add(i, "random", S_IFCHR, 0);
	vk_node_add(i, "urandom", S_IFCHR, 0);
	memset(nsync, 0, sizeof(nsync));
	vk_fsync_hook = on_fsync;
	vk_settime_hook = on_settime;
	for (i = 0; i < 3; i++) {
		static const char *const f[] = { "/v/a", "/v/bb", "/v/c" };
		vfs_set(f[i], "previous", 8 - i);
	}
	if (futils_hash_init(&shared_t, 3, NULL))
		mc_fail("hash_init");
	for (i = 0; i < 6; i++)
		futils_hash_insert_const(&shared_t, i, &shared_v[i]);
}

static void reset(void)
{
	vk_reset();
	sched_reset();
	sched_tls = rnd_tls;
	sched_tls_init = tls_fresh;
	sched_tls_n = rnd_ntls;
	rnd_copy(rnd_tls, tls_fresh, rnd_ntls);
	tsan_enabled = 0;
}

struct job { int n, op[3], bound; };
static struct job *J;
static uint64_t res[3];
static void thread(void *arg)
{
	int i = (int)(intptr_t)arg;
	res[i] = op[J->op[i]].fn(i);
}

static void run(void *arg)
{
	static const char *const nm[] = { "first", "second", "third" };
	int i, live;
	J = arg;
	setup();
	live = vk_mem_live;
	tsan_enabled = 1;
	vk_all_points = 1;
	sched_preempt_bound = J->bound;
	for (i = 0; i < J->n; i++)
		sched_spawn(nm[i], thread, (void *)(intptr_t)i);
	sched_run();
	vk_all_points = 0;
	tsan_enabled = 0;
	for (i = 0; i < J->n; i++)
		CHECK(res[i] == alone[J->op[i]][i], "the %s thread (%s) does "
		      "not get what it gets alone", nm[i],
		      op[J->op[i]].name);
	CHECK(vk_mem_live == live, "%d blocks leaked", vk_mem_live - live);
	CHECK(!vk_fd_open_count() && !vfs_open_count() && !vk_dirs_open,
	      "descriptors left open");
	mc_outcome(mc_mix(res[0], res[1]));
	mc_n_nontrivial++;
	mc_case(J->op[0], J->op[1], J->n > 2 ? J->op[2] : 99, J->bound);
}

int main(int argc, char **argv)
{
	static struct job jobs[3000];
	int i, j, k, n = 0;
	char name[100];
	mc_init(argc, argv);
	dl_iterate_phdr(rnd_phdr, NULL);
	tls_fresh = malloc(rnd_ntls + 1);
	rnd_copy(tls_fresh, rnd_tls, rnd_ntls);
	vk_use_arena = 1;
	reset();
	setup();
	versions();
	for (i = 0; i < NOP; i++)
		for (j = 0; j < 3; j++) {
			uint64_t a;
			reset();
			setup();
			a = op[i].fn(j);
			reset();
			setup();
			alone[i][j] = op[i].fn(j);
			if (a != alone[i][j])
				mc_broken("%s is not repeatable", op[i].name);
		}
	mc_set_reset(reset);
	for (i = 0; i < NOP; i++)
		for (j = i; j < NOP; j++) {
			jobs[n] = (struct job){ 2, { i, j }, mc_thorough ? 3 :
				2 };
			sprintf(name, "%s | %s", op[i].name, op[j].name);
			mc_explore(name, run, &jobs[n++]);
		}
	for (i = 0; i < NOP; i++)
		for (j = i; j < NOP; j++)
			for (k = j; k < NOP; k++) {
				if (!mc_thorough && !(i == j && j == k))
					continue;
				jobs[n] = (struct job){ 3, { i, j, k }, 1 };
				sprintf(name, "%s | %s | %s", op[i].name,
					op[j].name, op[k].name);
				mc_explore(name, run, &jobs[n++]);
			}
	mc_sample("two threads process the events of their own descriptor: "
		  "all interleavings of the calls with at most 2 preemptions");
	return mc_end();
}
