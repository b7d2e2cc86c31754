#define _GNU_SOURCE
#include <threads.h>
#include "fibers.h"
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

#define STACK_SZ (256 * 1024)
enum { F_NONE, F_WAIT, F_DONE };
struct fiber {
	ucontext_t ctx;
	char *stack;
	const char *name, *op;
	const void *obj;
	void (*fn)(void *);
	void *arg;
	int state;
	int (*enabled)(void *);	/* NULL: always */
	void *earg;
	int64_t deadline;
	int wall;		/* the deadline is one of the wall clock */
	int timed_out, in_cond, spurious;
	uint64_t hb;
	int err;
};
static struct fiber fb[SCHED_MAX];
static int n_fb, cur = -1, next_wall;
static ucontext_t main_ctx;
int sched_spurious_budget, sched_timer_budget, sched_preempt_bound = -1;
int sched_expect_block, sched_blocked_at_end;
uint8_t *sched_tls, *sched_tls_init;
size_t sched_tls_n;
static uint8_t *tls_of[SCHED_MAX], *tls_main;
uint8_t *sched_tls_of(int i) { return tls_of[i]; }
static int preempts;
void (*sched_step_hook)(void);

/* ---- synchronization objects by address ---- */
struct obj {
	const void *addr;
	uint64_t hb;
	int owner;		/* of a mutex: fiber + 1, 99 for main */
	int clock;		/* of a condition */
	int depth;
};
#define N_OBJ 4096
static struct obj objs[N_OBJ];
static int n_obj;

static struct obj *obj_get(const void *addr)
{
	int i;
	for (i = 0; i < n_obj; i++)
		if (objs[i].addr == addr)
			return &objs[i];
	if (n_obj == N_OBJ)
		mc_broken("too many synchronization objects");
	memset(&objs[n_obj], 0, sizeof(objs[0]));
	objs[n_obj].addr = addr;
	return &objs[n_obj++];
}

static void obj_drop(const void *addr)
{
	int i;
	for (i = 0; i < n_obj; i++)
		if (objs[i].addr == addr) {
			objs[i] = objs[--n_obj];
			return;
		}
}

static void keys_reset(void);
void sched_reset(void)
{
	int i;
	for (i = 0; i < SCHED_MAX; i++)
		fb[i].state = F_NONE;
	n_fb = 0;
	cur = -1;
	n_obj = 0;
	preempts = 0;
	sched_spurious_budget = sched_timer_budget = 0;
	sched_preempt_bound = -1;
	sched_expect_block = sched_blocked_at_end = 0;
	sched_step_hook = NULL;
	keys_reset();
	tsan_reset();
}

int sched_active(void) { return cur >= 0; }
int sched_self(void) { return cur; }

int sched_mutexes_held(void)
{
	int i, n = 0;
	for (i = 0; i < n_obj; i++)
		n += objs[i].owner != 0;
	return n;
}

static void keys_reset(void);
static void keys_end(int i);
static void entry(int i)
{
	fb[i].fn(fb[i].arg);
	keys_end(i);
	fb[i].state = F_DONE;
	fb[i].err = errno;
	swapcontext(&fb[i].ctx, &main_ctx);
	abort();
}

int sched_spawn(const char *name, void (*fn)(void *), void *arg)
{
	struct fiber *f = &fb[n_fb];
	if (n_fb == SCHED_MAX)
		mc_broken("too many fibers");
	if (!f->stack)
		f->stack = malloc(STACK_SZ);
	f->name = name;
	f->fn = fn;
	f->arg = arg;
	f->state = F_WAIT;
	f->enabled = NULL;
	f->deadline = -1;
	f->timed_out = f->in_cond = f->spurious = 0;
	f->op = "start";
	f->obj = NULL;
	f->hb = 1000 + n_fb;
	f->err = mc_errno0[(mc_scn_hash + n_fb) & 7];
	getcontext(&f->ctx);
	f->ctx.uc_stack.ss_sp = f->stack;
	f->ctx.uc_stack.ss_size = STACK_SZ;
	f->ctx.uc_link = NULL;
	makecontext(&f->ctx, (void (*)(void))entry, 1, n_fb);
	if (sched_tls) {
		if (!tls_of[n_fb])
			tls_of[n_fb] = malloc(sched_tls_n);
		memcpy(tls_of[n_fb], sched_tls_init, sched_tls_n);
	}
	tsan_fork(n_fb);
	return n_fb++;
}

void sched_sync(const void *obj)
{
	struct obj *o;
	if (cur < 0)
		return;
	o = obj_get(obj);
	fb[cur].hb = mc_mix(mc_mix(fb[cur].hb, o->hb),
			    (uint64_t)(uintptr_t)obj);
	o->hb = fb[cur].hb;
}

void sched_sync_read(const void *obj)
{
	if (cur >= 0)
		fb[cur].hb = mc_mix(mc_mix(fb[cur].hb, obj_get(obj)->hb),
				    (uint64_t)(uintptr_t)obj + 1);
}

void sched_note(uint64_t v)
{
	if (cur >= 0)
		fb[cur].hb = mc_mix(fb[cur].hb, v);
}

static void yield_(void)
{
	struct fiber *f = &fb[cur];
	f->err = errno;
	swapcontext(&f->ctx, &main_ctx);
	errno = f->err;
}

void sched_point(const char *op, const void *obj)
{
	if (cur < 0)
		return;
	fb[cur].op = op;
	fb[cur].obj = obj;
	fb[cur].enabled = NULL;
	fb[cur].deadline = -1;
	yield_();
}

int sched_block(const char *op, int (*enabled)(void *), void *arg,
		const void *obj, int64_t deadline)
{
	struct fiber *f;
	if (cur < 0) {
		if (enabled(arg))
			return 0;
		if (deadline < 0)
			mc_fail("%s blocks for ever", op);
		if (deadline > vk_mono_ns)
			vk_advance(deadline - vk_mono_ns);
		return 1;
	}
	f = &fb[cur];
	f->op = op;
	f->obj = obj;
	f->enabled = enabled;
	f->earg = arg;
	f->deadline = deadline;
	f->wall = next_wall;
	next_wall = 0;
	f->timed_out = 0;
	yield_();
	f->enabled = NULL;
	f->deadline = -1;
	f->wall = 0;
	if (f->timed_out)
		sched_note(0x71e0u ^ (uint64_t)vk_mono_ns);
	return f->timed_out;
}

/* somebody sets the wall clock: the delays until its instants change */
void sched_set_wall(int64_t ns)
{
	int i;
	sched_point("set the clock", &vk_mono_ns);
	sched_sync(&vk_mono_ns);
	for (i = 0; i < n_fb; i++)
		if (fb[i].state == F_WAIT && fb[i].deadline >= 0 &&
		    fb[i].wall) {
			fb[i].deadline -= ns;
			if (fb[i].deadline < vk_mono_ns)
				fb[i].deadline = vk_mono_ns;
		}
	vk_real_ns += ns;
}

void sched_run(void)
{
	enum { RUN, TIMER, SPURIOUS };
	int last = -1, i;
	for (;;) {
		struct { int f, kind; } alt[SCHED_MAX * 3];
		int n = 0, runnable = 0, alive = 0, last_en = 0, k, c;
		if (sched_step_hook)
			sched_step_hook();
		/* the running fiber first */
		for (k = 0; k < n_fb; k++) {
			i = last < 0 ? k :
				k == 0 ? last : k <= last ? k - 1 : k;
			if (fb[i].state != F_WAIT)
				continue;
			alive++;
			if (!fb[i].enabled || fb[i].enabled(fb[i].earg)) {
				alt[n].f = i;
				alt[n++].kind = RUN;
				runnable++;
				if (i == last)
					last_en = 1;
			}
		}
		if (!alive)
			break;
		for (i = 0; i < n_fb; i++) {
			if (fb[i].state != F_WAIT || !fb[i].enabled ||
			    fb[i].deadline < 0 || fb[i].enabled(fb[i].earg))
				continue;
			if (!runnable || sched_timer_budget > 0 ||
			    fb[i].deadline <= vk_mono_ns) {
				alt[n].f = i;
				alt[n++].kind = TIMER;
			}
		}
		for (i = 0; i < n_fb; i++)
			if (fb[i].state == F_WAIT && fb[i].in_cond &&
			    fb[i].enabled && !fb[i].enabled(fb[i].earg) &&
			    sched_spurious_budget > 0) {
				alt[n].f = i;
				alt[n++].kind = SPURIOUS;
			}
		if (!n) {
			char msg[400] = "";
			for (i = 0; i < n_fb; i++)
				if (fb[i].state == F_WAIT) {
					size_t l = strlen(msg);
					sched_blocked_at_end |= 1 << i;
					snprintf(msg + l, sizeof(msg) - l,
						 " %s waits in %s;",
						 fb[i].name, fb[i].op);
				}
			if (sched_expect_block)
				break;
			mc_fail("deadlock:%s", msg);
		}
		if (last_en && sched_preempt_bound >= 0 &&
		    preempts >= sched_preempt_bound)
			n = 1;
		if (n > 1 && mc_at_frontier()) {
			uint64_t h = mc_mix((uint64_t)vk_mono_ns,
					    (uint64_t)vk_real_ns);
			for (i = 0; i < n_fb; i++)
				h = mc_mix(h, fb[i].hb ^ fb[i].state);
			h = mc_mix(h, sched_spurious_budget * 64 +
				   sched_timer_budget * 4096 +
				   vk_fault_budget);
			if (sched_preempt_bound >= 0)
				h = mc_mix(h, preempts * 8 + last + 1);
			if (mc_state(h))
				mc_prune();
		}
		c = mc_choose(n, "schedule");
		i = alt[c].f;
		if (last_en && i != last)
			preempts++;
		if (alt[c].kind == TIMER) {
			if (runnable && fb[i].deadline > vk_mono_ns)
				sched_timer_budget--;
			if (fb[i].deadline > vk_mono_ns)
				vk_advance(fb[i].deadline - vk_mono_ns);
			fb[i].timed_out = 1;
		} else if (alt[c].kind == SPURIOUS) {
			sched_spurious_budget--;
			fb[i].spurious = 1;
		}
		mc_log("%s: %s%s", fb[i].name, fb[i].op,
		       alt[c].kind == TIMER ? " times out" :
		       alt[c].kind == SPURIOUS ? " wakes spuriously" : "");
		fb[i].hb = mc_mix(fb[i].hb, alt[c].kind + 7);
		cur = i;
		last = i;
		errno = fb[i].err;
		if (sched_tls) {
			if (!tls_main)
				tls_main = malloc(sched_tls_n);
			memcpy(tls_main, sched_tls, sched_tls_n);
			memcpy(sched_tls, tls_of[i], sched_tls_n);
		}
		swapcontext(&main_ctx, &fb[i].ctx);
		if (sched_tls) {
			memcpy(tls_of[i], sched_tls, sched_tls_n);
			memcpy(sched_tls, tls_main, sched_tls_n);
		}
		cur = -1;
	}
	for (i = 0; i < n_fb; i++)
		if (fb[i].state == F_DONE)
			tsan_join(i);
}

/* ---- mutexes and conditions ---- */
static int mutex_free_(void *m) { return obj_get(m)->owner == 0; }

int vk_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	(void)a;
	tsan_range(m, sizeof(*m), 1);
	memset(m, 0, sizeof(*m));
	obj_get(m);
	return 0;
}

int vk_mutex_destroy(pthread_mutex_t *m)
{
	if (obj_get(m)->owner)
		mc_fail("a locked mutex is destroyed");
	obj_drop(m);
	return 0;
}

static int lock_common(pthread_mutex_t *m, int64_t deadline)
{
	struct obj *o = obj_get(m);
	if (cur < 0 && o->owner == 99)
		mc_fail("deadlock: mutex locked twice by the same thread");
	if (cur < 0 && o->owner)
		mc_fail("deadlock: mutex left locked by a thread");
	if (cur >= 0 && o->owner == cur + 1 && deadline < 0)
		mc_fail("deadlock: mutex locked twice by the same thread");
	if (sched_block("mutex_lock", mutex_free_, m, m, deadline))
		return ETIMEDOUT;
	o = obj_get(m);
	o->owner = cur >= 0 ? cur + 1 : 99;
	sched_sync(m);
	tsan_acquire(m);
	return 0;
}

int vk_mutex_lock(pthread_mutex_t *m) { return lock_common(m, -1); }

static int64_t deadline_of(int clock, const struct timespec *ts)
{
	int64_t now = clock == CLOCK_MONOTONIC ? vk_mono_ns : vk_real_ns;
	int64_t d = ts->tv_sec * 1000000000ll + ts->tv_nsec - now;
	if (d < 0)
		d = 0;
	return vk_mono_ns + d;
}

int vk_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
	next_wall = 1;
	return lock_common(m, deadline_of(CLOCK_REALTIME, ts));
}

int vk_mutex_trylock(pthread_mutex_t *m)
{
	struct obj *o;
	sched_point("mutex_trylock", m);
	o = obj_get(m);
	sched_sync(m);
	if (o->owner)
		return EBUSY;
	o->owner = cur >= 0 ? cur + 1 : 99;
	tsan_acquire(m);
	return 0;
}

int vk_mutex_unlock(pthread_mutex_t *m)
{
	struct obj *o = obj_get(m);
	if (o->owner != (cur >= 0 ? cur + 1 : 99))
		mc_fail("a mutex which is not held is unlocked");
	sched_sync(m);
	tsan_release(m);
	o->owner = 0;
	return 0;
}

int vk_condattr_init(pthread_condattr_t *a)
{
	tsan_range(a, sizeof(*a), 1);
	memset(a, 0, sizeof(*a));
	return 0;
}
int vk_condattr_destroy(pthread_condattr_t *a)
{
	tsan_range(a, sizeof(*a), 1);
	return 0;
}
int vk_condattr_setclock(pthread_condattr_t *a, clockid_t c)
{
	tsan_range(a, sizeof(*a), 1);
	*(int *)a = c;
	return 0;
}

int vk_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	tsan_range(c, sizeof(*c), 1);
	if (a)
		tsan_range((void *)a, sizeof(*a), 0);
	memset(c, 0, sizeof(*c));
	obj_get(c)->clock = a ? *(const int *)a : CLOCK_REALTIME;
	return 0;
}

int vk_cond_destroy(pthread_cond_t *c)
{
	int i;
	for (i = 0; i < n_fb; i++)
		if (fb[i].state == F_WAIT && fb[i].in_cond && fb[i].obj == c)
			mc_fail("a condition with waiters is destroyed");
	obj_drop(c);
	return 0;
}

static int cond_signaled(void *f) { return ((struct fiber *)f)->in_cond == 2; }

static int cond_wait_common(pthread_cond_t *c, pthread_mutex_t *m,
			    int64_t deadline, int wall)
{
	int to;
	struct fiber *f;
	if (cur < 0) {
		/* nobody can signal: only the timeout */
		if (deadline < 0)
			mc_fail("cond_wait blocks for ever");
		vk_mutex_unlock(m);
		if (deadline > vk_mono_ns)
			vk_advance(deadline - vk_mono_ns);
		vk_mutex_lock(m);
		return ETIMEDOUT;
	}
	f = &fb[cur];
	vk_mutex_unlock(m);
	sched_sync(c);
	f->in_cond = 1;
	f->spurious = 0;
	next_wall = wall;
	to = sched_block("cond_wait", cond_signaled, f, c, deadline);
	f->in_cond = 0;
	if (f->spurious)
		sched_note(0x5b);
	sched_sync(c);
	lock_common(m, -1);
	return to ? ETIMEDOUT : 0;
}

int vk_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	return cond_wait_common(c, m, -1, 0);
}

int vk_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk,
		      const struct timespec *ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
		return EINVAL;
	sched_sync(&vk_mono_ns);
	if (deadline_of(clk, ts) <= vk_mono_ns) {
		/* expired on entry: the mutex is released and taken again */
		vk_mutex_unlock(m);
		lock_common(m, -1);
		return ETIMEDOUT;
	}
	return cond_wait_common(c, m, deadline_of(clk, ts),
				clk != CLOCK_MONOTONIC);
}

int vk_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
		      const struct timespec *ts)
{
	return vk_cond_clockwait(c, m, obj_get(c)->clock, ts);
}

int vk_cond_signal(pthread_cond_t *c)
{
	int i, n = 0, w[SCHED_MAX];
	sched_point("cond_signal", c);
	sched_sync(c);
	for (i = 0; i < n_fb; i++)
		if (fb[i].state == F_WAIT && fb[i].in_cond == 1 &&
		    fb[i].obj == c && !fb[i].timed_out && !fb[i].spurious)
			w[n++] = i;
	if (n)
		fb[w[mc_choose(n, "which waiter")]].in_cond = 2;
	return 0;
}

int vk_cond_broadcast(pthread_cond_t *c)
{
	int i;
	sched_point("cond_broadcast", c);
	sched_sync(c);
	for (i = 0; i < n_fb; i++)
		if (fb[i].state == F_WAIT && fb[i].in_cond == 1 &&
		    fb[i].obj == c)
			fb[i].in_cond = 2;
	return 0;
}

int vk_sched_yield(void)
{
	sched_point("sched_yield", NULL);
	return 0;
}

/* ---- once, other locks, thread-specific values ---- */
static int once_done(void *o) { return *(int *)o != 1; }
int vk_once(pthread_once_t *o, void (*fn)(void))
{
	int *st = (int *)o;	/* PTHREAD_ONCE_INIT is 0 */
	sched_block("once", once_done, o, o, -1);
	sched_sync(o);
	tsan_acquire(o);
	if (*st == 0) {
		*st = 1;
		fn();
		*st = 2;
		sched_sync(o);
		tsan_release(o);
	}
	return 0;
}
/* the guard of a static of a function in C++: first byte set when done */
static int guard_free(void *g) { return ((char *)g)[1] == 0; }
int vk_guard_acquire(char *g)
{
	sched_block("static", guard_free, g, g, -1);
	sched_sync(g);
	tsan_acquire(g);
	if (g[0])
		return 0;
	g[1] = 1;
	return 1;
}
void vk_guard_release(char *g)
{
	g[0] = 1;
	g[1] = 0;
	sched_sync(g);
	tsan_release(g);
}
void vk_guard_abort(char *g) { g[1] = 0; }

/* readers exclude each other too: fewer interleavings, no other outcome */
/* each thread has its identity, as far from the others as real ones */
pthread_t vk_pthread_self(void)
{
	return (pthread_t)(0x7f31c0a00640 - (cur + 1) * 0x801000l);
}
pid_t vk_gettid(void) { return 31000 + cur + 1; }

/* the names of C11 */
int vk_mtx_init(mtx_t *m, int type)
{
	(void)type;
	memset(m, 0, sizeof(*m));
	obj_get(m);
	return thrd_success;
}
static int c11(int r)
{
	return r == 0 ? thrd_success : r == EBUSY ? thrd_busy :
		r == ETIMEDOUT ? thrd_timedout : thrd_error;
}
int vk_mtx_trylock(mtx_t *m)
{
	return c11(vk_mutex_trylock((pthread_mutex_t *)m));
}
int vk_mtx_timedlock(mtx_t *m, const struct timespec *ts)
{
	return c11(vk_mutex_timedlock((pthread_mutex_t *)m, ts));
}
int vk_cnd_init(cnd_t *c)
{
	return c11(vk_cond_init((pthread_cond_t *)c, NULL));
}
int vk_cnd_timedwait(cnd_t *c, mtx_t *m, const struct timespec *ts)
{
	return c11(vk_cond_timedwait((pthread_cond_t *)c, (pthread_mutex_t *)m,
				     ts));
}

int vk_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a)
{
	(void)a;
	return vk_mutex_init((pthread_mutex_t *)l, NULL);
}
int vk_rwlock_destroy(pthread_rwlock_t *l)
{
	return vk_mutex_destroy((pthread_mutex_t *)l);
}
int vk_rwlock_lock(pthread_rwlock_t *l)
{
	return vk_mutex_lock((pthread_mutex_t *)l);
}
int vk_rwlock_trylock(pthread_rwlock_t *l)
{
	return vk_mutex_trylock((pthread_mutex_t *)l);
}
int vk_rwlock_unlock(pthread_rwlock_t *l)
{
	return vk_mutex_unlock((pthread_mutex_t *)l);
}
int vk_spin_init(pthread_spinlock_t *l, int sh)
{
	(void)sh;
	obj_get((const void *)l);
	return 0;
}
int vk_spin_destroy(pthread_spinlock_t *l)
{
	return vk_mutex_destroy((pthread_mutex_t *)l);
}
int vk_spin_lock(pthread_spinlock_t *l)
{
	return vk_mutex_lock((pthread_mutex_t *)l);
}
int vk_spin_trylock(pthread_spinlock_t *l)
{
	return vk_mutex_trylock((pthread_mutex_t *)l);
}
int vk_spin_unlock(pthread_spinlock_t *l)
{
	return vk_mutex_unlock((pthread_mutex_t *)l);
}

#define N_KEYS 8
static void *key_v[N_KEYS][SCHED_MAX + 1];
static void (*key_d[N_KEYS])(void *);
static int n_keys;
static void keys_reset(void)
{
	n_keys = 0;
	memset(key_v, 0, sizeof(key_v));
}
static void keys_end(int i)
{
	int k;
	for (k = 0; k < n_keys; k++)
		if (key_v[k][i + 1] && key_d[k]) {
			void *v = key_v[k][i + 1];
			key_v[k][i + 1] = NULL;
			key_d[k](v);
		}
}
int vk_key_create(pthread_key_t *k, void (*d)(void *))
{
	if (n_keys == N_KEYS)
		return EAGAIN;
	key_d[n_keys] = d;
	*k = n_keys++;
	return 0;
}
int vk_key_delete(pthread_key_t k) { (void)k; return 0; }
void *vk_getspecific(pthread_key_t k) { return key_v[k][cur + 1]; }
int vk_setspecific(pthread_key_t k, const void *v)
{
	key_v[k][cur + 1] = (void *)v;
	return 0;
}
