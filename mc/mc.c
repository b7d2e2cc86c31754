#define _GNU_SOURCE
#include "mc.h"
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAX_CHOICES 200000
#define TRACE_SZ (1 << 20)

int mc_thorough;
uint64_t mc_n_cases, mc_n_nontrivial;
volatile uint64_t *mc_case_slots;

static struct { int v, n; const char *label; } st[MAX_CHOICES];
static int st_len, st_pos;
static char *trace;
static size_t trace_len;
static jmp_buf prune_jb;
static int show_times;
static int shard_i, shard_n = 1;
static uint8_t *claims;		/* shared: scenarios taken by a shard */
#define CLAIMS_SZ (1 << 17)
static const char *out_path, *cur_path, *only;
static char *replay_scn;
static int *replay_v, replay_n, replaying;
static void (*reset_cb)(void);
static int scn_index;
static const char *scn_name = "";
static uint64_t n_exec, n_pruned, n_trans, n_states, n_scn, n_valid;
static volatile uint64_t progress;
int mc_patience = 4;		/* in ticks of the watchdog */
static uint64_t n_outcomes;
static int max_depth;
static char samples[16][600];
static int n_samples;
static char capped[256];
static char *shared;	/* mmap'ed: what was running, for crash reports */
#define SHARED_SZ (1 << 16)

/* ---- hash sets ---- */
struct hset { uint64_t *t; size_t cap, n; };
static struct hset visited, outcomes;

static int hset_add(struct hset *s, uint64_t h)
{
	if (!h)
		h = 1;
	if (s->n * 2 >= s->cap) {
		struct hset o = *s;
		size_t i;
		s->cap = o.cap ? o.cap * 2 : 1 << 12;
		s->t = calloc(s->cap, 8);
		if (!s->t)
			mc_broken("out of memory");
		s->n = 0;
		for (i = 0; i < o.cap; i++)
			if (o.t[i])
				hset_add(s, o.t[i]);
		free(o.t);
	}
	size_t i = h & (s->cap - 1);
	while (s->t[i]) {
		if (s->t[i] == h)
			return 1;
		i = (i + 1) & (s->cap - 1);
	}
	s->t[i] = h;
	s->n++;
	return 0;
}

static void hset_clear(struct hset *s)
{
	if (s->cap > (1 << 16)) {
		free(s->t);
		memset(s, 0, sizeof(*s));
	} else if (s->t) {
		memset(s->t, 0, s->cap * 8);
		s->n = 0;
	}
}

uint64_t mc_hash(const void *p, size_t n, uint64_t seed)
{
	const uint8_t *b = p;
	uint64_t h = seed ^ (n * 0x9e3779b97f4a7c15ull), w;
	while (n >= 8) {
		memcpy(&w, b, 8);
		h = mc_mix(h, w);
		b += 8;
		n -= 8;
	}
	if (n) {
		w = 0;
		memcpy(&w, b, n);
		h = mc_mix(h, w);
	}
	return h;
}

/* ---- reports ---- */
static void write_replay(const char *kind, const char *msg)
{
	char path[600];
	FILE *f;
	int i;
	snprintf(path, sizeof(path), "%s.viol", out_path ? out_path : "mc");
	f = fopen(path, "w");
	if (!f)
		return;
	fprintf(f, "kind %s\nscenario %s\nmessage %s\nchoices", kind, scn_name,
		msg);
	for (i = 0; i < st_pos && i < st_len; i++)
		fprintf(f, " %d", st[i].v);
	fprintf(f, "\n");
	for (i = 0; i < st_pos && i < st_len; i++)
		fprintf(f, "# %d/%d %s\n", st[i].v, st[i].n,
			st[i].label ? st[i].label : "");
	fprintf(f, "case %llu: %#llx %#llx %#llx %#llx\n",
		(unsigned long long)mc_case_slots[0],
		(unsigned long long)mc_case_slots[1],
		(unsigned long long)mc_case_slots[2],
		(unsigned long long)mc_case_slots[3],
		(unsigned long long)mc_case_slots[4]);
	fprintf(f, "trace:\n%.*s", (int)trace_len, trace);
	fclose(f);
}

void mc_fail(const char *fmt, ...)
{
	char msg[2000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(msg, sizeof(msg), fmt, ap);
	va_end(ap);
	fprintf(stderr, "FAIL scenario=%s: %s\n", scn_name, msg);
	write_replay("fail", msg);
	_exit(1);
}

void mc_broken(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "BROKEN scenario=%s: ", scn_name);
	vfprintf(stderr, fmt, ap);
	va_end(ap);
	fprintf(stderr, "\n");
	_exit(4);
}

void mc_log(const char *fmt, ...)
{
	va_list ap;
	int n;
	if (trace_len + 600 >= TRACE_SZ)
		return;
	va_start(ap, fmt);
	n = vsnprintf(trace + trace_len, 500, fmt, ap);
	va_end(ap);
	if (n > 499)
		n = 499;
	trace_len += n;
	trace[trace_len++] = '\n';
	trace[trace_len] = 0;
}

void mc_sample(const char *fmt, ...)
{
	va_list ap;
	if (n_samples >= 16)
		return;
	va_start(ap, fmt);
	vsnprintf(samples[n_samples++], 600, fmt, ap);
	va_end(ap);
}

void mc_note_cap(const char *what)
{
	snprintf(capped, sizeof(capped), "%s", what);
}
void mc_validated(uint64_t n) { n_valid += n; }
void mc_count_transitions(uint64_t n) { n_trans += n; }

static void on_tick(int sig)
{
	static uint64_t last;
	static int same;
	uint64_t now = progress + mc_n_cases;
	(void)sig;
	if (now != last) {
		last = now;
		same = 0;
		return;
	}
	if (++same < mc_patience)
		return;
	fprintf(stderr, "HANG scenario=%s\n", scn_name);
	write_replay("hang", "no progress: endless loop");
	_exit(3);
}

void mc_init(int argc, char **argv)
{
	int i;
	trace = malloc(TRACE_SZ);
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--thorough"))
			mc_thorough = 1;
		else if (!strcmp(argv[i], "--claims")) {
			int fd = open(argv[++i], O_RDWR);
			if (fd < 0)
				mc_broken("claims file");
			claims = mmap(NULL, CLAIMS_SZ, PROT_READ | PROT_WRITE,
				      MAP_SHARED, fd, 0);
			if (claims == MAP_FAILED)
				mc_broken("claims file");
			close(fd);
		} else if (!strcmp(argv[i], "--shard"))
			sscanf(argv[++i], "%d/%d", &shard_i, &shard_n);
		else if (!strcmp(argv[i], "--out"))
			out_path = argv[++i];
		else if (!strcmp(argv[i], "--cur"))
			cur_path = argv[++i];
		else if (!strcmp(argv[i], "--only"))
			only = argv[++i];
		else if (!strcmp(argv[i], "--replay")) {
			FILE *f = fopen(argv[++i], "r");
			static char line[4 << 20];
			if (!f)
				mc_broken("no replay file");
			replaying = 1;
			replay_v = calloc(MAX_CHOICES, sizeof(int));
			while (fgets(line, sizeof(line), f)) {
				if (!strncmp(line, "scenario ", 9)) {
					replay_scn = strdup(line + 9);
					replay_scn[strcspn(replay_scn, "\n")] = 0;
				} else if (!strncmp(line, "choices", 7)) {
					char *p = line + 7, *e;
					for (;;) {
						long v = strtol(p, &e, 10);
						if (e == p)
							break;
						replay_v[replay_n++] = (int)v;
						p = e;
					}
					break;
				}
			}
			fclose(f);
		}
	}
	if (cur_path) {
		int fd = open(cur_path, O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, SHARED_SZ) < 0)
			mc_broken("progress file");
		shared = mmap(NULL, SHARED_SZ, PROT_READ | PROT_WRITE,
			      MAP_SHARED, fd, 0);
		close(fd);
	} else
		shared = calloc(1, SHARED_SZ);
	show_times = getenv("MC_TIMES") != NULL;
	mc_case_slots = (volatile uint64_t *)(shared + 512);
	{
		/* the handler needs its own stack: fibers have small ones */
		stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 };
		struct sigaction sa;
		struct itimerval it = { {5, 0}, {5, 0} };
		sigaltstack(&ss, NULL);
		memset(&sa, 0, sizeof(sa));
		sa.sa_handler = on_tick;
		sa.sa_flags = SA_ONSTACK | SA_RESTART;
		sigaction(SIGVTALRM, &sa, NULL);
		setitimer(ITIMER_VIRTUAL, &it, NULL);
	}
}

static int echo = -1;
int mc_at_frontier(void) { return st_pos >= st_len && echo < 0; }

/* run again with the choices made since a mark */
int mc_mark(void) { return st_pos; }
void mc_echo_begin(int mark) { echo = mark; }
void mc_echo_end(void)
{
	if (echo != st_pos)
		mc_broken("repeated execution is shorter");
	echo = -1;
}

int mc_choose(int n, const char *label)
{
	int v;
	if (n <= 1)
		return 0;
	if (echo >= 0) {
		if (echo >= st_pos || st[echo].n != n)
			mc_broken("repeated execution diverged (%s)", label);
		return st[echo++].v;
	}
	if (st_pos >= MAX_CHOICES)
		mc_fail("livelock: more than %d steps in one execution",
			MAX_CHOICES);
	n_trans++;
	if (replaying) {
		v = st_pos < replay_n ? replay_v[st_pos] : 0;
		if (v >= n)
			mc_broken("replay diverged at choice %d (%s)", st_pos,
				  label);
		st[st_pos].v = v;
		st[st_pos].n = n;
		st[st_pos].label = label;
		st_len = ++st_pos;
		return v;
	}
	if (st_pos < st_len) {
		if (st[st_pos].n != n)
			mc_broken("replay diverged at choice %d: %d!=%d (%s)",
				  st_pos, st[st_pos].n, n, label);
		return st[st_pos++].v;
	}
	st[st_pos].v = 0;
	st[st_pos].n = n;
	st[st_pos].label = label;
	st_len = ++st_pos;
	if (st_pos > max_depth)
		max_depth = st_pos;
	return 0;
}

int mc_state(uint64_t h)
{
	if (replaying)
		return 0;
	if (hset_add(&visited, h))
		return 1;
	n_states++;
	return 0;
}

void mc_outcome(uint64_t h)
{
	hset_add(&outcomes, mc_mix(h, 77));
}

void mc_prune(void)
{
	n_pruned++;
	longjmp(prune_jb, 1);
}

void mc_set_reset(void (*cb)(void)) { reset_cb = cb; }

const int mc_errno0[8] = { 0, EINTR, EAGAIN, ERANGE, ENOENT, EILSEQ, ENOMEM,
	EEXIST };
unsigned int mc_scn_hash;

void mc_explore(const char *name, void (*fn)(void *), void *arg)
{
	int idx = scn_index++, mine = (idx % shard_n) == shard_i;
	struct timespec t0, t1;
	const char *q;
	if (idx >= CLAIMS_SZ)
		mc_broken("too many scenarios");
	if (replaying) {
		if (strcmp(name, replay_scn))
			return;
	} else if (only) {
		if (strcmp(name, only))
			return;
	} else if (claims) {
		if (__atomic_exchange_n(&claims[idx], 1, __ATOMIC_SEQ_CST))
			return;
	} else if (!mine)
		return;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	for (mc_scn_hash = 0, q = name; *q; q++)
		mc_scn_hash = mc_scn_hash * 31 + (unsigned char)*q;
	scn_name = name;
	snprintf(shared, 500, "%s", name);
	n_scn++;
	hset_clear(&visited);
	st_len = 0;
	for (;;) {
		st_pos = 0;
		trace_len = 0;
		trace[0] = 0;
		progress++;
		n_exec++;
		if (reset_cb)
			reset_cb();
		errno = mc_errno0[mc_scn_hash & 7];
		if (!setjmp(prune_jb))
			fn(arg);
		if (replaying)
			break;
		/* next execution in depth first order */
		if (st_pos < st_len)
			mc_broken("execution ended before its replayed prefix");
		while (st_len > 0 && st[st_len - 1].v + 1 >= st[st_len - 1].n)
			st_len--;
		if (!st_len)
			break;
		st[st_len - 1].v++;
	}
	clock_gettime(CLOCK_MONOTONIC, &t1);
	if (show_times)
		fprintf(stderr, "TIME %.2f %s\n", t1.tv_sec - t0.tv_sec +
			1e-9 * (t1.tv_nsec - t0.tv_nsec), name);
	if (replaying)
		fprintf(stderr, "replayed without failure:\n%s", trace);
}

static void jstr(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		if (*s == '"' || *s == '\\')
			fprintf(f, "\\%c", *s);
		else if ((unsigned char)*s < 0x20 || (unsigned char)*s >= 0x7f)
			fprintf(f, "\\u%04x", (unsigned char)*s);
		else
			fputc(*s, f);
	}
	fputc('"', f);
}

int mc_end(void)
{
	FILE *f;
	int i;
	n_outcomes = outcomes.n;
	if (!out_path)
		f = stdout;
	else
		f = fopen(out_path, "w");
	if (!f)
		mc_broken("cannot write %s", out_path);
	fprintf(f, "{\"scenarios\":%llu,\"executions\":%llu,\"pruned\":%llu,"
		"\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,"
		"\"cases\":%llu,\"nontrivial\":%llu,\"validated\":%llu,"
		"\"max_depth\":%d,\"total_scenarios\":%d,\"capped\":",
		(unsigned long long)n_scn, (unsigned long long)n_exec,
		(unsigned long long)n_pruned, (unsigned long long)n_trans,
		(unsigned long long)n_states, (unsigned long long)n_outcomes,
		(unsigned long long)mc_n_cases,
		(unsigned long long)mc_n_nontrivial,
		(unsigned long long)n_valid, max_depth, scn_index);
	jstr(f, capped);
	fprintf(f, ",\"samples\":[");
	for (i = 0; i < n_samples; i++) {
		if (i)
			fputc(',', f);
		jstr(f, samples[i]);
	}
	fprintf(f, "]}\n");
	if (out_path)
		fclose(f);
	return 0;
}
