/* Explorer core: stateless depth first enumeration of all the choice
 * sequences of a scenario, with optional pruning on visited states. */
#ifndef MC_H
#define MC_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif

extern int mc_thorough;		/* tier */

void mc_init(int argc, char **argv);
int mc_end(void);		/* writes the statistics, returns exit code */

/* Explore all the executions of fn(arg). Scenarios are distributed over the
 * shards. reset (may be NULL) is called before each execution. */
void mc_explore(const char *name, void (*fn)(void *), void *arg);
/* As mc_explore for a single execution which enumerates its cases itself
 * (calls mc_case for each) */
void mc_set_reset(void (*reset)(void));

/* nondeterministic choice in [0, n) */
int mc_choose(int n, const char *label);
int mc_at_frontier(void);	/* the next choice is not a replayed one */
/* run again, in the same execution, with the choices made since a mark */
int mc_mark(void);
void mc_echo_begin(int mark);
void mc_echo_end(void);
/* trace of the current execution */
void mc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* description of the current case, for data enumerations (cheap) */
extern volatile uint64_t *mc_case_slots;
extern uint64_t mc_n_cases, mc_n_nontrivial;
extern int mc_patience;
/* what earlier calls left in errno means nothing: it varies with the case */
extern const int mc_errno0[8];
extern unsigned int mc_scn_hash;
#define mc_case(a, b, c, d) do { mc_n_cases++; \
	errno = mc_errno0[((uint64_t)(a) + (uint64_t)(b) + (uint64_t)(c) + \
			   (uint64_t)(d)) & 7]; \
	mc_case_slots[0] = mc_n_cases; \
	mc_case_slots[1] = (uint64_t)(a); mc_case_slots[2] = (uint64_t)(b); \
	mc_case_slots[3] = (uint64_t)(c); mc_case_slots[4] = (uint64_t)(d); \
	} while (0)
/* a violation of the property */
void mc_fail(const char *fmt, ...)
	__attribute__((format(printf, 1, 2), noreturn));
#define CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
/* an error of the machinery itself: no verdict */
void mc_broken(const char *fmt, ...)
	__attribute__((format(printf, 1, 2), noreturn));

/* record a state; returns 1 if it was already visited in this scenario */
int mc_state(uint64_t h);
/* record a final outcome (statistics on distinct ones) */
void mc_outcome(uint64_t h);
/* give up this execution: all its continuations were already explored */
void mc_prune(void) __attribute__((noreturn));
/* keep one written-out example for the evidence */
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* number of model traces or real-kernel replays compared */
void mc_validated(uint64_t n);
void mc_count_transitions(uint64_t n);
void mc_note_cap(const char *what);

static inline uint64_t mc_mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 32;
	h *= 0xc4ceb9fe1a85ec53ull;
	h ^= h >> 29;
	return h;
}
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);

#ifdef __cplusplus
}
#endif
#endif
