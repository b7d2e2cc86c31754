/* Controlled scheduler: the threads are fibers, every synchronization or
 * kernel call is a scheduling point, and the explorer enumerates all the
 * interleavings (states reached twice with equal histories are pruned). */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#include <stddef.h>
#define SCHED_MAX 4

void sched_reset(void);
int sched_spawn(const char *name, void (*fn)(void *), void *arg);
void sched_run(void);			/* until all the fibers are over */
int sched_active(void);			/* inside a fiber */
int sched_self(void);

extern int sched_spurious_budget;	/* spurious wake-ups left */
void sched_set_wall(int64_t ns);	/* by so much */
extern int sched_timer_budget;		/* timers which may fire early */
extern int sched_preempt_bound;		/* -1: none */
extern int sched_expect_block;		/* blocked at the end is allowed */
extern int sched_blocked_at_end;	/* bit mask of blocked fibers */
/* thread-local block swapped at each switch (NULL: none): each fiber starts
 * with a copy of sched_tls_init and leaves its own in sched_tls_of() */
extern uint8_t *sched_tls, *sched_tls_init;
extern size_t sched_tls_n;
uint8_t *sched_tls_of(int fiber);
/* called in each state, before the next step is chosen */
extern void (*sched_step_hook)(void);

/* scheduling point before an operation on obj (NULL: thread local) */
void sched_point(const char *op, const void *obj);
/* wait until enabled(arg); deadline in monotonic ns or -1. 1: timed out */
int sched_block(const char *op, int (*enabled)(void *), void *arg,
		const void *obj, int64_t deadline_ns);
/* the current fiber synchronized on obj */
void sched_sync(const void *obj);
/* ... and only read it: reads need no order between them */
void sched_sync_read(const void *obj);
/* mix a value read from outside in the history of the current fiber */
void sched_note(uint64_t v);
/* call at will: mutex currently held by someone? */
int sched_mutexes_held(void);

/* memory access of the current fiber (race and bounds detection) */
void tsan_range(const void *p, size_t n, int write);
extern int tsan_enabled;
void tsan_acquire(const void *obj);
void tsan_release(const void *obj);
void tsan_reset(void);
void tsan_fork(int child);
void tsan_join(int child);
void tsan_forget(const void *p, size_t n);
#endif
