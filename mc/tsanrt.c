/* Runtime for the library objects compiled with -fsanitize=thread: a
 * vector-clock race detector for the fibers, with a byte-exact check that
 * heap accesses lie inside a live block. Only the heap arena and the
 * library's own static data are looked at. */
#include "fibers.h"
#include "mc.h"
#include "vk.h"
#include <iconv.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <wchar.h>

extern char __start_libdata[] __attribute__((weak));
extern char __stop_libdata[] __attribute__((weak));
int tsan_enabled;

#define NT (SCHED_MAX + 1)		/* 0 is main */
static uint32_t vc[NT][NT];
struct shadow {
	uint32_t epoch;
	uint32_t wclk;
	uint8_t wtid;
	uint32_t rclk[NT];
};
static struct shadow sh_heap[VK_ARENA_SZ];
#define LIBDATA_MAX (1 << 20)
static struct shadow sh_data[LIBDATA_MAX];
static uint32_t epoch = 1;
static char snap[LIBDATA_MAX];
static int have_snap;
struct sv { const void *o; uint32_t vc[NT]; };
#define N_SVS 4096
static struct sv svs[N_SVS];
static int n_svs;

static size_t libdata_size(void)
{
	return (size_t)(__stop_libdata - __start_libdata);
}

int tsan_keep_data;		/* the threads are new, not the process */
void tsan_reset(void)
{
	int i;
	epoch++;
	memset(vc, 0, sizeof(vc));
	for (i = 0; i < NT; i++)
		vc[i][i] = 1;
	n_svs = 0;
	if (libdata_size() > LIBDATA_MAX)
		mc_broken("static data too large");
	if (!have_snap) {
		have_snap = 1;
		memcpy(snap, __start_libdata, libdata_size());
	} else if (!tsan_keep_data)
		memcpy(__start_libdata, snap, libdata_size());
}

static int self(void) { return sched_self() + 1; }

static struct sv *sv_get(const void *o)
{
	int i;
	for (i = 0; i < n_svs; i++)
		if (svs[i].o == o)
			return &svs[i];
	if (n_svs == N_SVS)
		mc_broken("too many synchronization variables");
	memset(&svs[n_svs], 0, sizeof(svs[0]));
	svs[n_svs].o = o;
	return &svs[n_svs++];
}

void tsan_acquire(const void *o)
{
	struct sv *s = sv_get(o);
	int i, t = self();
	for (i = 0; i < NT; i++)
		if (s->vc[i] > vc[t][i])
			vc[t][i] = s->vc[i];
}

void tsan_release(const void *o)
{
	struct sv *s = sv_get(o);
	int i, t = self();
	for (i = 0; i < NT; i++)
		if (vc[t][i] > s->vc[i])
			s->vc[i] = vc[t][i];
	vc[t][t]++;
}

void tsan_fork(int child)
{
	int i, t = self();
	for (i = 0; i < NT; i++)
		if (vc[t][i] > vc[child + 1][i])
			vc[child + 1][i] = vc[t][i];
	vc[t][t]++;
}

void tsan_join(int child)
{
	int i;
	for (i = 0; i < NT; i++)
		if (vc[child + 1][i] > vc[0][i])
			vc[0][i] = vc[child + 1][i];
}

/* freshly allocated: no earlier access counts */
void tsan_forget(const void *p, size_t n)
{
	const uint8_t *b = p;
	if (b >= vk_arena && b + n <= vk_arena + VK_ARENA_SZ)
		memset(&sh_heap[b - vk_arena], 0, n * sizeof(sh_heap[0]));
}

static void race(const void *p, const char *what)
{
	mc_fail("data race: %s of unsynchronized memory by thread %d (%s)",
		what, self() - 1,
		(const uint8_t *)p >= vk_arena &&
		(const uint8_t *)p < vk_arena + VK_ARENA_SZ ? "heap" : "static");
}

void tsan_range(const void *p, size_t n, int write)
{
	const uint8_t *b = p;
	struct shadow *s;
	size_t i;
	int t, j;
	if (!tsan_enabled || !n)
		return;
	if (b + n > vk_arena && b < vk_arena + VK_ARENA_SZ) {
		if (b < vk_arena || b + n > vk_arena + VK_ARENA_SZ)
			mc_fail("heap access out of bounds");
		for (i = 0; i < n; i++)
			if (!vk_arena_live[b - vk_arena + i])
				mc_fail("heap %s out of bounds or after free "
					"(%zu bytes, byte %zu)",
					write ? "write" : "read", n, i);
		s = &sh_heap[b - vk_arena];
	} else if (__start_libdata && b >= (uint8_t *)__start_libdata &&
		   b + n <= (uint8_t *)__stop_libdata) {
		s = &sh_data[b - (uint8_t *)__start_libdata];
	} else
		return;
	t = self();
	for (i = 0; i < n; i++, s++) {
		if (s->epoch != epoch) {
			memset(s, 0, sizeof(*s));
			s->epoch = epoch;
		}
		if (s->wclk > vc[t][s->wtid])
			race(b + i, write ? "write" : "read");
		if (!write) {
			s->rclk[t] = vc[t][t];
			continue;
		}
		for (j = 0; j < NT; j++)
			if (s->rclk[j] > vc[t][j])
				race(b + i, "write");
		s->wtid = t;
		s->wclk = vc[t][t];
	}
}

void *vk_memcpy(void *d, const void *s, size_t n)
{
	tsan_range(s, n, 0);
	tsan_range(d, n, 1);
	return memcpy(d, s, n);
}
void *vk_memmove(void *d, const void *s, size_t n)
{
	tsan_range(s, n, 0);
	tsan_range(d, n, 1);
	return memmove(d, s, n);
}
void *vk_memset(void *d, int c, size_t n)
{
	tsan_range(d, n, 1);
	return memset(d, c, n);
}

/* ---- the functions of libc which touch the memory they are given ---- */
#define STR(p) tsan_range(p, strlen(p) + 1, 0)
int vk_memcmp(const void *a, const void *b, size_t n)
{
	tsan_range(a, n, 0);
	tsan_range(b, n, 0);
	return memcmp(a, b, n);
}
void *vk_memchr(const void *a, int c, size_t n)
{
	const char *r = memchr(a, c, n);
	tsan_range(a, r ? (size_t)(r - (const char *)a) + 1 : n, 0);
	return (void *)r;
}
size_t vk_strlen(const char *s) { STR(s); return strlen(s); }
size_t vk_strnlen(const char *s, size_t n)
{
	size_t l = strnlen(s, n);
	tsan_range(s, l < n ? l + 1 : l, 0);
	return l;
}
int vk_strcmp(const char *a, const char *b)
{
	STR(a);
	STR(b);
	return strcmp(a, b);
}
static void strn(const char *a, size_t n) { vk_strnlen(a, n); }
int vk_strncmp(const char *a, const char *b, size_t n)
{
	size_t i;
	for (i = 0; i < n && a[i] == b[i] && a[i]; i++)
		;
	tsan_range(a, i < n ? i + 1 : n, 0);
	tsan_range(b, i < n ? i + 1 : n, 0);
	return strncmp(a, b, n);
}
int vk_strcasecmp(const char *a, const char *b)
{
	STR(a);
	STR(b);
	return strcasecmp(a, b);
}
int vk_strncasecmp(const char *a, const char *b, size_t n)
{
	strn(a, n);
	strn(b, n);
	return strncasecmp(a, b, n);
}
char *vk_strchr(const char *s, int c) { STR(s); return strchr(s, c); }
char *vk_strrchr(const char *s, int c) { STR(s); return strrchr(s, c); }
char *vk_strstr(const char *s, const char *t)
{
	STR(s);
	STR(t);
	return strstr(s, t);
}
size_t vk_strspn(const char *s, const char *t)
{
	STR(s);
	return strspn(s, t);
}
size_t vk_strcspn(const char *s, const char *t)
{
	STR(s);
	return strcspn(s, t);
}
char *vk_strcpy(char *d, const char *s)
{
	STR(s);
	tsan_range(d, strlen(s) + 1, 1);
	return strcpy(d, s);
}
char *vk_stpcpy(char *d, const char *s)
{
	return vk_strcpy(d, s) + strlen(s);
}
char *vk_strncpy(char *d, const char *s, size_t n)
{
	strn(s, n);
	tsan_range(d, n, 1);
	return strncpy(d, s, n);
}
char *vk_strcat(char *d, const char *s)
{
	vk_strcpy(d + vk_strlen(d), s);
	return d;
}
char *vk_strncat(char *d, const char *s, size_t n)
{
	size_t l = vk_strlen(d), k = strnlen(s, n);
	strn(s, n);
	tsan_range(d + l, k + 1, 1);
	return strncat(d, s, n);
}
int vk_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
	int r;
	tsan_range(ap, 24, 1);
	r = vsnprintf(d, n, f, ap);
	if (r >= 0 && n)
		tsan_range(d, (size_t)r < n ? (size_t)r + 1 : n, 1);
	return r;
}
int vk_vsprintf(char *d, const char *f, va_list ap)
{
	int r;
	tsan_range(ap, 24, 1);
	r = vsprintf(d, f, ap);
	if (r >= 0)
		tsan_range(d, r + 1, 1);
	return r;
}
int vk_vfprintf(FILE *fp, const char *f, va_list ap)
{
	tsan_range(ap, 24, 1);
	return vfprintf(fp, f, ap);
}
int vk_snprintf(char *d, size_t n, const char *f, ...)
{
	int r;
	va_list ap;
	va_start(ap, f);
	r = vk_vsnprintf(d, n, f, ap);
	va_end(ap);
	return r;
}
int vk_sprintf(char *d, const char *f, ...)
{
	int r;
	va_list ap;
	va_start(ap, f);
	r = vk_vsprintf(d, f, ap);
	va_end(ap);
	return r;
}
int vk_sscanf(const char *s, const char *f, ...)
{
	int r;
	va_list ap;
	STR(s);
	va_start(ap, f);
	r = vsscanf(s, f, ap);
	va_end(ap);
	return r;
}
long vk_strtol(const char *s, char **e, int b)
{
	STR(s);
	if (e)
		tsan_range(e, sizeof(*e), 1);
	return strtol(s, e, b);
}
unsigned long vk_strtoul(const char *s, char **e, int b)
{
	STR(s);
	if (e)
		tsan_range(e, sizeof(*e), 1);
	return strtoul(s, e, b);
}
size_t vk_fread(void *p, size_t s, size_t n, FILE *f)
{
	size_t r = fread(p, s, n, f);
	tsan_range(p, r * s, 1);
	return r;
}
size_t vk_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
	size_t t;
	if (!__builtin_mul_overflow(s, n, &t))
		tsan_range(p, t, 0);
	return fwrite(p, s, n, f);
}
char *vk_fgets(char *p, int n, FILE *f)
{
	char *r = fgets(p, n, f);
	if (r)
		tsan_range(p, strlen(p) + 1, 1);
	return r;
}
int vk_fputs(const char *p, FILE *f) { STR(p); return fputs(p, f); }
size_t vk_iconv(iconv_t c, char **i, size_t *ni, char **o, size_t *no)
{
	char *i0 = i ? *i : NULL, *o0 = o ? *o : NULL;
	size_t r;
	if (i0)
		tsan_range(i0, *ni, 0);
	r = iconv(c, i, ni, o, no);
	if (o0)
		tsan_range(o0, *o - o0, 1);
	return r;
}
size_t vk_wcslen(const wchar_t *s)
{
	tsan_range(s, (wcslen(s) + 1) * sizeof(*s), 0);
	return wcslen(s);
}
wchar_t *vk_wcschr(const wchar_t *s, wchar_t c)
{
	tsan_range(s, (wcslen(s) + 1) * sizeof(*s), 0);
	return wcschr(s, c);
}
struct tm *vk_gmtime_r(const time_t *t, struct tm *tm)
{
	tsan_range(t, sizeof(*t), 0);
	tsan_range(tm, sizeof(*tm), 1);
	return gmtime_r(t, tm);
}
struct tm *vk_localtime_r(const time_t *t, struct tm *tm)
{
	tsan_range(t, sizeof(*t), 0);
	tsan_range(tm, sizeof(*tm), 1);
	return localtime_r(t, tm);
}
size_t vk_strftime(char *s, size_t n, const char *f, const struct tm *tm)
{
	size_t r = strftime(s, n, f, tm);
	tsan_range(tm, sizeof(*tm), 0);
	if (r)
		tsan_range(s, r + 1, 1);
	return r;
}

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *p) { tsan_range(p, n, 0); } \
void __tsan_write##n(void *p) { tsan_range(p, n, 1); } \
void __tsan_unaligned_read##n(void *p) { tsan_range(p, n, 0); } \
void __tsan_unaligned_write##n(void *p) { tsan_range(p, n, 1); } \
void __tsan_volatile_read##n(void *p) { tsan_range(p, n, 0); } \
void __tsan_volatile_write##n(void *p) { tsan_range(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { tsan_range(p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { tsan_range(p, n, 1); }
void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void *p) { (void)p; }

static void atomic_pre(const volatile void *p)
{
	sched_point("atomic", (const void *)p);
	sched_sync((const void *)p);
}
static void atomic_pre_read(const volatile void *p)
{
	sched_point("atomic", (const void *)p);
	sched_sync_read((const void *)p);
}
static int live(const volatile void *p, size_t n)
{
	const uint8_t *b = (const uint8_t *)p;
	size_t i;
	if (b >= vk_arena && b < vk_arena + VK_ARENA_SZ)
		for (i = 0; i < n; i++)
			if (!vk_arena_live[b - vk_arena + i])
				mc_fail("atomic access out of bounds");
	return 1;
}
/* memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq */
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define REL(mo) ((mo) >= 3)
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) \
{ T v; live(a, sizeof(T)); atomic_pre_read(a); v = *a; \
  if (ACQ(mo)) \
	tsan_acquire((void *)a); \
  return v; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) \
{ live(a, sizeof(T)); atomic_pre(a); *a = v; \
  if (REL(mo)) tsan_release((void *)a); } \
static T rmw##bits(volatile T *a, int mo) \
{ live(a, sizeof(T)); atomic_pre(a); \
  if (ACQ(mo)) tsan_acquire((void *)a); \
  if (REL(mo)) \
	tsan_release((void *)a); \
  return *a; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) \
{ T o = rmw##bits(a, mo); *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) \
{ T o = rmw##bits(a, mo); *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) \
{ T o = rmw##bits(a, mo); *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) \
{ T o = rmw##bits(a, mo); *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) \
{ T o = rmw##bits(a, mo); *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) \
{ T o = rmw##bits(a, mo); *a = o ^ v; return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, \
	int mo, int fmo) \
{ T o = rmw##bits(a, mo); (void)fmo; \
  if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, \
	int mo, int fmo) \
{ return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, \
	int mo, int fmo) \
{ __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); \
  return c; }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
