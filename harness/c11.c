/* C11: every list primitive from every state of two lists, against sequences;
 * all the walks; the MIN, MAX and BOUND helpers */
#include "mc.h"
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <futils/list.h>
#include <futils/futils.h>

#define NMAX 6
struct item { uint64_t before; int id; struct list_node node; uint64_t after; };
static struct item it[NMAX];
static struct list_node head[2];
static int N;

/* the model: two sequences and the raw pointers of the unlinked nodes */
struct model {
	int n[2], seq[2][NMAX];
	struct list_node raw[NMAX];	/* of unlinked nodes */
	int linked[NMAX];
};

#define CANARY(i) (0x1122334455667788ull + (i))
static const struct list_node unref = { FUTILS_LIST_POISON1,
	FUTILS_LIST_POISON2 };

static struct list_node *nd(int i) { return &it[i].node; }

static void build(const struct model *m)
{
	int l, i;
	for (i = 0; i < N; i++) {
		it[i].before = CANARY(i);
		it[i].after = ~CANARY(i);
		it[i].id = i;
		it[i].node = m->raw[i];
	}
	for (l = 0; l < 2; l++) {
		struct list_node *p = &head[l];
		head[l].next = head[l].prev = &head[l];
		for (i = 0; i < m->n[l]; i++) {
			struct list_node *x = nd(m->seq[l][i]);
			p->next = x;
			x->prev = p;
			p = x;
		}
		p->next = &head[l];
		head[l].prev = p;
	}
}

static void where(const struct model *m, int i, int *l, int *pos)
{
	for (*l = 0; *l < 2; ++*l)
		for (*pos = 0; *pos < m->n[*l]; ++*pos)
			if (m->seq[*l][*pos] == i)
				return;
	mc_broken("node %d is not linked", i);
}

static void m_remove(struct model *m, int i)
{
	int l, p;
	where(m, i, &l, &p);
	memmove(&m->seq[l][p], &m->seq[l][p + 1],
		(m->n[l] - p - 1) * sizeof(int));
	m->n[l]--;
	m->linked[i] = 0;
}

static void m_insert(struct model *m, int l, int p, int i)
{
	memmove(&m->seq[l][p + 1], &m->seq[l][p],
		(m->n[l] - p) * sizeof(int));
	m->seq[l][p] = i;
	m->n[l]++;
	m->linked[i] = 1;
}

static const char *str(const struct model *m)
{
	static char b[2][200];
	static int k;
	char *s = b[k ^= 1];
	int l, i, n = 0;
	for (l = 0; l < 2; l++) {
		n += sprintf(s + n, "[");
		for (i = 0; i < m->n[l]; i++)
			n += sprintf(s + n, "%d", m->seq[l][i]);
		n += sprintf(s + n, "]");
	}
	return s;
}

static void compare(const struct model *m, const struct model *from,
		    const char *op)
{
	int l, i;
	for (l = 0; l < 2; l++) {
		const struct list_node *p = &head[l];
		for (i = 0; i < m->n[l]; i++) {
			const struct list_node *x = nd(m->seq[l][i]);
			CHECK(p->next == x, "%s from %s: not %s: next of "
			      "position %d of list %d", op, str(from), str(m),
			      i - 1, l);
			CHECK(x->prev == p, "%s from %s: not %s: prev of "
			      "position %d of list %d", op, str(from), str(m),
			      i, l);
			p = x;
		}
		CHECK(p->next == &head[l] && head[l].prev == p, "%s from %s: "
		      "not %s: end of list %d", op, str(from), str(m), l);
	}
	for (i = 0; i < N; i++) {
		if (!m->linked[i])
			CHECK(!memcmp(nd(i), &m->raw[i], sizeof(m->raw[i])),
			      "%s from %s: unlinked node %d changed or is not "
			      "marked", op, str(from), i);
		CHECK(it[i].before == CANARY(i) && it[i].after == ~CANARY(i)
		      && it[i].id == i, "%s from %s: item %d was written", op,
		      str(from), i);
	}
}

/* target of an insertion: a node or a head; position after it */
static struct list_node *target(const struct model *m, int t, int *l, int *p)
{
	if (t < 2) {
		*l = t;
		*p = 0;		/* after the head: first */
		return &head[t];
	}
	where(m, t - 2, l, p);
	++*p;
	return nd(t - 2);
}

static struct list_node self(int i)
{
	struct list_node x = { nd(i), nd(i) };
	return x;
}

static long n_ops;
static void case_(const struct model *m, int op, int a, int b)
{
	n_ops++;
	mc_case(m->n[0] * 10 + m->n[1], op, a, b);
	mc_n_nontrivial++;
	mc_count_transitions(1);
}

static void walks(const struct model *m, int l)
{
	struct list_node *h = &head[l], *pos, *tmp;
	struct item *e, *te;
	int n = m->n[l], i, how, kind;
	unsigned mask;
	const struct model *x = m;
#define SEQ(k) (x->seq[l][k])
	build(m);
	i = 0;
	list_walk_forward(h, pos) {
		CHECK(i < n && pos == nd(SEQ(i)), "walk_forward of %s: "
		      "position %d", str(m), i);
		i++;
	}
	CHECK(i == n && pos == h, "walk_forward of %s: %d nodes", str(m), i);
	list_walk_backward(h, pos) {
		CHECK(i > 0 && pos == nd(SEQ(i - 1)), "walk_backward of %s: "
		      "position %d", str(m), i);
		i--;
	}
	CHECK(i == 0 && pos == h, "walk_backward of %s: %d left", str(m), i);
	list_walk_entry_forward(h, e, node) {
		CHECK(i < n && e == &it[SEQ(i)], "walk_entry_forward of "
		      "%s: position %d", str(m), i);
		i++;
	}
	CHECK(i == n, "walk_entry_forward of %s: %d nodes", str(m), i);
	list_walk_entry_backward(h, e, node) {
		CHECK(i > 0 && e == &it[SEQ(i - 1)], "walk_entry_backward of "
		      "%s: position %d", str(m), i);
		i--;
	}
	CHECK(i == 0, "walk_entry_backward of %s: %d left", str(m), i);
	compare(m, m, "walk");
	/* every subset of the visited nodes deleted in 4 manners */
	for (kind = 0; kind < 4; kind++)
		for (how = 0; how < 4; how++)
			for (mask = 0; mask < 1u << n; mask++) {
				struct model w = *m;
				struct list_node *v;
				case_(m, 20 + kind, how, mask);
				build(m);
				i = 0;
#define BODY(node_, idx_, what_) do { int id; \
		v = (node_); \
		CHECK(i < n, "%s of %s, deleting %#x: more than %d nodes", \
		      what_, str(m), mask, n); \
		id = SEQ(idx_); \
		CHECK(v == nd(id), "%s of %s, deleting %#x: step %d is not " \
		      "node %d", what_, str(m), mask, i, id); \
		if (mask >> (idx_) & 1) { \
			m_remove(&w, id); \
			w.raw[id] = unref; \
			if (how == 0) \
				list_del(v); \
			else if (how == 1) { \
				list_del_init(v); \
				w.raw[id] = self(id); \
			} else if (how == 2) { \
				list_move_after(&head[!l], v); \
				m_insert(&w, !l, 0, id); \
			} else { \
				/* released memory */ \
				list_del(v); \
				memset(v, 7, sizeof(*v)); \
				w.raw[id] = *v; \
			} \
		} \
		i++; } while (0)
				if (kind == 0)
					list_walk_forward_safe(h, pos, tmp)
						BODY(pos, i,
						     "walk_forward_safe");
				else if (kind == 1)
					list_walk_backward_safe(h, pos, tmp)
						BODY(pos, n - 1 - i,
						     "walk_backward_safe");
				else if (kind == 2)
					list_walk_entry_forward_safe(h, e, te,
								     node)
						BODY(&e->node, i,
						"walk_entry_forward_safe");
				else
					list_walk_entry_backward_safe(h, e, te,
								      node)
						BODY(&e->node, n - 1 - i,
						"walk_entry_backward_safe");
				CHECK(i == n, "safe walk %d of %s, deleting "
				      "%#x: %d nodes of %d", kind, str(m),
				      mask, i, n);
				compare(&w, m, "safe walk");
			}
	/* fifo */
	{
		struct model w = *m;
		build(m);
		for (i = 0; i <= n; i++) {
			struct item *p = list_pop(h, struct item, node);
			case_(m, 30, i, l);
			if (!w.n[l]) {
				CHECK(!p, "pop of an empty list");
			} else {
				int id = w.seq[l][0];
				CHECK(p == &it[id], "pop %d of %s", i, str(m));
				m_remove(&w, id);
				w.raw[id] = unref;
			}
			compare(&w, m, "pop");
		}
		/* and pushed back */
		for (i = 0; i < n; i++) {
			list_push(h, nd(SEQ(i)));
			m_insert(&w, l, i, SEQ(i));
			compare(&w, m, "push");
		}
		CHECK(!memcmp(w.seq[l], m->seq[l], n * sizeof(int)), "fifo");
	}
}

static void observers(const struct model *m)
{
	int l, i;
	build(m);
	for (l = 0; l < 2; l++) {
		struct list_node *h = &head[l];
		int n = m->n[l];
		case_(m, 40, l, 0);
		CHECK(!!list_is_empty(h) == (n == 0), "is_empty of %s, list "
		      "%d", str(m), l);
		CHECK(list_first(h) == (n ? nd(m->seq[l][0]) : h), "first of "
		      "%s, list %d", str(m), l);
		CHECK(list_last(h) == (n ? nd(m->seq[l][n - 1]) : h), "last "
		      "of %s, list %d", str(m), l);
		CHECK(list_length(h) == (size_t)n, "length of %s, list %d: "
		      "%zu", str(m), l, list_length(h));
		for (i = 0; i < n; i++) {
			struct list_node *x = nd(m->seq[l][i]);
			CHECK(list_next(h, x) == (i + 1 < n ?
			      nd(m->seq[l][i + 1]) : NULL), "next of position "
			      "%d of %s, list %d", i, str(m), l);
			CHECK(list_prev(h, x) == (i ? nd(m->seq[l][i - 1]) :
			      NULL), "prev of position %d of %s, list %d", i,
			      str(m), l);
			CHECK(!!list_is_last(h, x) == (i == n - 1), "is_last "
			      "of position %d of %s, list %d", i, str(m), l);
			CHECK(!list_is_last(&head[!l], x), "is_last of "
			      "another list");
			CHECK(list_node_is_ref(x) && !list_node_is_unref(x),
			      "a linked node of %s is said to be unlinked",
			      str(m));
			CHECK(list_entry(x, struct item, node) ==
			      &it[m->seq[l][i]], "list_entry");
		}
		CHECK(list_next(h, h) == (n ? nd(m->seq[l][0]) : NULL),
		      "next of the head of %s", str(m));
		CHECK(list_prev(h, h) == (n ? nd(m->seq[l][n - 1]) : NULL),
		      "prev of the head of %s", str(m));
		CHECK(!!list_is_last(h, h) == (n == 0), "is_last of the head "
		      "of %s", str(m));
	}
	compare(m, m, "observation");
}

/* the head of a list is replaced by another one, which was not initialized */
static void other_head(const struct model *m, int l, int content)
{
	int v, i;
	for (v = 0; v < 2; v++) {
		static struct { uint64_t before; struct list_node h;
			uint64_t after; } f;
		const struct list_node *p = &f.h;
		f.before = CANARY(50);
		f.after = CANARY(51);
		f.h = m->raw[content];
		build(m);
		if (v)
			list_replace_init(&head[l], &f.h);
		else
			list_replace(&head[l], &f.h);
		for (i = 0; i <= m->n[l]; i++) {
			const struct list_node *x = i < m->n[l] ?
				nd(m->seq[l][i]) : &f.h;
			CHECK(p->next == x && x->prev == p, "replacement of "
			      "the head %d of %s: position %d", l, str(m), i);
			p = x;
		}
		CHECK(f.before == CANARY(50) && f.after == CANARY(51),
		      "replacement of a head writes beside it");
		if (v)
			CHECK(head[l].next == &head[l] && head[l].prev ==
			      &head[l], "replace_init leaves the old head of "
			      "%s linked", str(m));
		mc_count_transitions(1);
	}
	mc_n_nontrivial++;
}

static void ops(const struct model *m)
{
	int i, t, l, p, sl, sp;
	struct model w;
	struct list_node *tn;
	for (l = 0; l < 2; l++) {
		if (m->n[l])
			continue;
		/* init of a head of any content */
		build(m);
		memset(&head[l], 0x3c, sizeof(head[l]));
		list_init(&head[l]);
		case_(m, 0, l, 0);
		compare(m, m, "init");
	}
	for (i = 0; i < N; i++) {
		if (!m->linked[i]) {
			struct list_node r = m->raw[i];
			build(m);
			case_(m, 1, i, 0);
			CHECK(!!list_node_is_unref(nd(i)) ==
			      !memcmp(&r, &unref, sizeof(r)) &&
			      !!list_node_is_ref(nd(i)) !=
			      !!list_node_is_unref(nd(i)), "is_unref of an "
			      "unlinked node");
			list_node_unref(nd(i));
			w = *m;
			w.raw[i] = unref;
			compare(&w, m, "unref");
			CHECK(list_node_is_unref(nd(i)), "is_unref");
			for (t = 0; t < N + 2; t++) {
				if (t >= 2 && !m->linked[t - 2])
					continue;
				case_(m, 2, i, t);
				build(m);
				w = *m;
				tn = target(m, t, &l, &p);
				list_add_after(tn, nd(i));
				m_insert(&w, l, p, i);
				compare(&w, m, "add_after");
				build(m);
				w = *m;
				/* before the head: last */
				list_add_before(tn, nd(i));
				m_insert(&w, l, t < 2 ? m->n[l] : p - 1, i);
				compare(&w, m, "add_before");
				build(m);
				w = *m;
				list_add(nd(i), tn, tn->next);
				m_insert(&w, l, p, i);
				compare(&w, m, "add");
				if (t >= 2) {
					/* replace t - 2 by i */
					build(m);
					w = *m;
					w.seq[l][p - 1] = i;
					w.linked[i] = 1;
					w.linked[t - 2] = 0;
					w.raw[t - 2] = *tn;
					list_replace(tn, nd(i));
					/* the old one is not specified */
					w.raw[t - 2] = *tn;
					compare(&w, m, "replace");
					build(m);
					list_replace_init(tn, nd(i));
					w.raw[t - 2] = self(t - 2);
					compare(&w, m, "replace_init");
				} else {
					other_head(m, t, i);
					build(m);
					w = *m;
					list_push(tn, nd(i));
					m_insert(&w, t, m->n[t], i);
					compare(&w, m, "push");
				}
			}
		} else {
			where(m, i, &sl, &sp);
			case_(m, 3, i, 0);
			build(m);
			list_del(nd(i));
			w = *m;
			m_remove(&w, i);
			w.raw[i] = unref;
			compare(&w, m, "del");
			CHECK(list_node_is_unref(nd(i)) &&
			      !list_node_is_ref(nd(i)), "deleted node not "
			      "marked");
			build(m);
			list_del_init(nd(i));
			w.raw[i] = self(i);
			compare(&w, m, "del_init");
			for (t = 0; t < N + 2; t++) {
				struct model c;
				if (t >= 2 && (t - 2 == i ||
					       !m->linked[t - 2]))
					continue;
				case_(m, 4, i, t);
				build(m);
				w = *m;
				m_remove(&w, i);
				c = w;
				tn = target(&w, t, &l, &p);
				list_move_after(tn, nd(i));
				m_insert(&w, l, p, i);
				compare(&w, m, "move_after");
				build(m);
				w = c;
				list_move_before(tn, nd(i));
				m_insert(&w, l, t < 2 ? c.n[l] : p - 1, i);
				compare(&w, m, "move_before");
			}
		}
	}
}

static uint64_t hash_model(const struct model *m)
{
	uint64_t h = mc_mix(m->n[0], m->n[1]);
	int l, i;
	for (l = 0; l < 2; l++)
		for (i = 0; i < m->n[l]; i++)
			h = mc_mix(h, m->seq[l][i] + 1);
	return h;
}

/* every distribution and order of the nodes over the two lists */
static void fill(struct model *m, unsigned left, int with_walks)
{
	int i, l;
	if (!mc_state(hash_model(m))) {
		if (with_walks) {
			observers(m);
			walks(m, 0);
			walks(m, 1);
		} else
			ops(m);
	}
	for (l = m->n[1] ? 1 : 0; l < 2; l++)
		for (i = 0; i < N; i++)
			if (left >> i & 1) {
				m_insert(m, l, m->n[l], i);
				fill(m, left & ~(1u << i), with_walks);
				m_remove(m, i);
			}
}

static void all(void *arg)
{
	int k = (int)(intptr_t)arg, i;
	struct model m;
	memset(&m, 0, sizeof(m));
	N = k % 10;
	for (i = 0; i < N; i++) {
		/* unlinked nodes: never used, deleted or deleted with init */
		m.raw[i] = (i + k / 100) % 3 == 0 ? unref :
			(i + k / 100) % 3 == 1 ? self(i) :
			(struct list_node){ (void *)0x1231, (void *)0x4561 };
	}
	fill(&m, (1u << N) - 1, k / 10 % 10);
	mc_outcome(k);
	mc_sample("nodes %d, %s, unlinked kinds %d", N, k / 10 % 10 ?
		  "walks and observers" : "primitives", k / 100);
}

/* empty and static heads */
static void heads(void *arg)
{
	static struct list_node st = list_head_init(st);
	struct list_node *p, *q;
	int n = 0;
	(void)arg;
	CHECK(st.next == &st && st.prev == &st, "list_head_init");
	CHECK(list_is_empty(&st) && list_length(&st) == 0, "static head");
	list_walk_forward_safe(&st, p, q)
		n++;
	list_walk_backward_safe(&st, p, q)
		n++;
	CHECK(n == 0, "walk of an empty list");
}

static int evals;
#define E(x) (evals++, (x))
#define TRY(T, fmt, a, b) do { T x = (a), y = (b), r; \
	evals = 0; \
	r = FUTILS_MIN(E(x), E(y)); \
	CHECK(r == (x < y ? x : y), "MIN(" fmt ", " fmt ") is " fmt, x, y, r); \
	CHECK(evals == 2, "MIN evaluates %d times", evals); \
	evals = 0; \
	r = FUTILS_MAX(E(x), E(y)); \
	CHECK(r == (x > y ? x : y), "MAX(" fmt ", " fmt ") is " fmt, x, y, r); \
	CHECK(evals == 2, "MAX evaluates %d times", evals); \
	CHECK(MIN(x, y) == (x < y ? x : y) && MAX(x, y) == (x > y ? x : y), \
	      "MIN or MAX"); } while (0)
#define TRY3(T, fmt, a, b, c) do { T x = (a), m = (b), M = (c), r; \
	if (m > M) \
		break; \
	evals = 0; \
	r = FUTILS_BOUND(E(x), E(m), E(M)); \
	CHECK(r == (x < m ? m : x > M ? M : x), "BOUND(" fmt ", " fmt ", " \
	      fmt ") is " fmt, x, m, M, r); \
	CHECK(evals == 3, "BOUND evaluates %d times", evals); \
	CHECK(BOUND(x, m, M) == r, "BOUND"); \
	r = MIN(MAX(x, m), MIN(M, M)); \
	CHECK(r == (x < m ? m : x > M ? M : x), "nested MIN and MAX"); \
	} while (0)
#define ALL(T, fmt, ...) do { static const T v[] = { __VA_ARGS__ }; \
	size_t i, j, k; \
	for (i = 0; i < sizeof(v) / sizeof(v[0]); i++) \
		for (j = 0; j < sizeof(v) / sizeof(v[0]); j++) { \
			mc_case(50, i, j, 0); \
			mc_n_nontrivial++; \
			mc_count_transitions(2); \
			TRY(T, fmt, v[i], v[j]); \
			for (k = 0; k < sizeof(v) / sizeof(v[0]); k++) \
				TRY3(T, fmt, v[i], v[j], v[k]); \
		} \
	CHECK(FUTILS_SIZEOF_ARRAY(v) == sizeof(v) / sizeof(v[0]) && \
	      SIZEOF_ARRAY(v) == sizeof(v) / sizeof(v[0]), "SIZEOF_ARRAY"); \
	} while (0)

static void helpers(void *arg)
{
	int a, b, c;
	(void)arg;
	for (a = -128; a < 128; a++)
		for (b = -128; b < 128; b++) {
			TRY(int8_t, "%d", a, b);
			TRY(uint8_t, "%d", a, b);
			TRY(int, "%d", a, b);
		}
	for (a = -9; a < 10; a++)
		for (b = -9; b < 10; b++)
			for (c = -9; c < 10; c++) {
				TRY3(int, "%d", a, b, c);
				TRY3(double, "%g", a, b, c);
				TRY3(float, "%g", a, b, c);
				TRY3(int64_t, "%ld", a, b, c);
			}
	ALL(int, "%d", 0, 1, -1, 2, INT32_MAX, INT32_MIN, INT32_MAX - 1,
	    INT32_MIN + 1, 0x10000, -0x10000);
	ALL(unsigned, "%u", 0, 1, 2, UINT32_MAX, UINT32_MAX - 1, INT32_MAX,
	    INT32_MAX + 1u);
	ALL(int64_t, "%ld", 0, 1, -1, INT64_MAX, INT64_MIN, INT32_MAX,
	    INT32_MIN, 1ll << 32, -(1ll << 32), (1ll << 32) + 1, 1ll << 53,
	    (1ll << 53) + 1);
	ALL(uint64_t, "%lu", 0, 1, UINT64_MAX, INT64_MAX, 1ull << 63,
	    1ull << 32, (1ull << 32) + 1, UINT32_MAX);
	ALL(double, "%g", 0, 1, -1, 0.5, -0.5, 1e300, -1e300, 1.5, 1.25,
	    9007199254740992.0, 9007199254740994.0);
	ALL(float, "%g", 0, 1, -1, 0.5, -0.5, 1e30f, -1e30f, 1.25f);
	ALL(int16_t, "%d", 0, 1, -1, 32767, -32768, 255, 256);
	ALL(uint16_t, "%d", 0, 1, 65535, 32768, 255, 256);
	/* mixed widths of one signedness */
	CHECK(MIN(1, 1ll << 40) == 1 && MAX(1, 1ll << 40) == 1ll << 40,
	      "mixed widths");
	CHECK(MIN(1.5, 2) == 1.5 && MAX(1, 1.5) == 1.5 &&
	      BOUND(2.5, 1, 3) == 2.5 && BOUND(5, 1.5, 2.5) == 2.5,
	      "mixed types");
	mc_outcome(1);
}

/* items of two lists at once, by a first and by a nested member; walks given
 * expressions, and nested */
struct two { struct list_node a; int id; struct { char c; struct list_node b; }
	in; };

static void members(void *arg)
{
	static struct two x[7];
	struct list_node A, B, *p, *q, *u, *v;
	struct two *e, *f, *t;
	int i, j, n, w;
	(void)arg;
	for (n = 0; n <= 7; n++)
		for (w = 0; w < 2; w++) {
			mc_case(n, w, 0, 60);
			mc_n_nontrivial++;
			mc_count_transitions(1);
			list_init(&A);
			list_init(&B);
			for (i = 0; i < n; i++) {
				x[i].id = i;
				list_push(&A, &x[i].a);
				/* the other list is in reverse order */
				list_add_after(&B, &x[i].in.b);
			}
#define AT(k) (w ? &x[n - 1 - (k)].in.b : &x[k].a)
#define IS(what) CHECK(p == AT(i), what " of list %d of %d: position %d", w, \
		       n, i)
#define END(what, k) CHECK(i == (k), what " of list %d of %d ends at %d", w, \
			   n, i)
			i = 0;
			list_walk_forward(w ? &B : &A, p) {
				IS("forward");
				i++;
			}
			END("forward", n);
			list_walk_backward(w ? &B : &A, p) {
				i--;
				IS("backward");
			}
			END("backward", 0);
			list_walk_forward_safe(w ? &B : &A, p, q) {
				IS("safe");
				i++;
			}
			END("safe", n);
			list_walk_backward_safe(w ? &B : &A, p, q) {
				i--;
				IS("backward safe");
			}
			END("backward safe", 0);
			if (w) {
				list_walk_entry_forward(w ? &B : &A, e, in.b) {
					p = &e->in.b;
					IS("entry");
					i++;
				}
				END("entry", n);
				list_walk_entry_backward(w ? &B : &A, e,
							 in.b) {
					i--;
					p = &e->in.b;
					IS("entry backward");
				}
				END("entry backward", 0);
				list_walk_entry_forward_safe(w ? &B : &A, e, f,
							     in.b) {
					p = &e->in.b;
					IS("entry safe");
					i++;
				}
				END("entry safe", n);
				list_walk_entry_backward_safe(w ? &B : &A, e,
							      f, in.b) {
					i--;
					p = &e->in.b;
					IS("entry backward safe");
				}
				END("entry backward safe", 0);
			} else {
				list_walk_entry_forward(w ? &B : &A, e, a) {
					p = &e->a;
					IS("entry");
					i++;
				}
				END("entry", n);
				list_walk_entry_backward(w ? &B : &A, e, a) {
					i--;
					p = &e->a;
					IS("entry backward");
				}
				END("entry backward", 0);
				list_walk_entry_forward_safe(w ? &B : &A, e, f,
							     a) {
					p = &e->a;
					IS("entry safe");
					i++;
				}
				END("entry safe", n);
				list_walk_entry_backward_safe(w ? &B : &A, e,
							      f, a) {
					i--;
					p = &e->a;
					IS("entry backward safe");
				}
				END("entry backward safe", 0);
			}
			for (i = 0; i < n; i++) {
				CHECK(list_entry(w ? &x[i].a : &x[i].a,
						 struct two, a) == &x[i] &&
				      list_entry(&x[i].in.b, struct two, in.b)
				      == &x[i], "list_entry");
				CHECK(!!list_is_last(w ? &B : &A, AT(i)) ==
				      (i == n - 1), "is_last");
				CHECK(list_next(w ? &B : &A, AT(i)) ==
				      (i == n - 1 ? NULL : AT(i + 1)),
				      "next");
			}
			CHECK(list_length(w ? &B : &A) == (size_t)n, "length");
			/* a walk in a walk of the same or of the other list */
			j = 0;
			list_walk_forward(&A, p)
				list_walk_backward(w ? &B : &A, q)
					j++;
			CHECK(j == n * n, "nested walks of %d: %d steps", n, j);
			j = 0;
			list_walk_entry_forward_safe(&A, e, f, a)
				list_walk_forward_safe(&B, u, v)
					if (u == &e->in.b) {
						list_del(u);
						j++;
					}
			CHECK(j == n && list_is_empty(&B) && list_length(&A) ==
			      (size_t)n, "nested safe walks of %d", n);
			for (i = 0; i < n; i++)
				list_push(&B, &x[i].in.b);
			/* popped from both */
			for (i = 0; i < n; i++) {
				e = list_pop(&A, struct two, a);
				t = list_pop(w ? &B : &B, struct two, in.b);
				CHECK(e == &x[i] && t == &x[i], "pop %d of %d",
				      i, n);
			}
			CHECK(!list_pop(&A, struct two, a) &&
			      !list_pop(&B, struct two, in.b), "pop");
		}
#undef AT
#undef IS
#undef END
}

/* long lists: lengths that would not fit a narrow counter */
static void long_lists(void *arg)
{
	static const int len[] = { 127, 128, 129, 254, 255, 256, 257, 32767,
		32768, 32769, 65534, 65535, 65536, 65537, 131073, 1 << 20,
		(1 << 24) + 3 };
	int n = len[(intptr_t)arg], i, k;
	struct item *a = calloc(n, sizeof(*a)), *e, *t;
	struct list_node l, *p, *q;
	if (!a)
		mc_broken("memory");
	list_init(&l);
	for (i = 0; i < n; i++) {
		a[i].id = i;
		list_push(&l, &a[i].node);
	}
	mc_case(n, 0, 0, 9);
	mc_n_nontrivial++;
	mc_count_transitions(n);
#define LEN(want, when) CHECK(list_length(&l) == (size_t)(want), "length %zu " \
	"%s, not %d", list_length(&l), when, (int)(want))
	LEN(n, "after the insertions");
	i = 0;
	list_walk_forward(&l, p)
		CHECK(p == &a[i++].node, "walk of %d: position %d", n, i - 1);
	CHECK(i == n, "walk of %d: %d", n, i);
	list_walk_backward(&l, p)
		CHECK(p == &a[--i].node, "walk of %d: position %d", n, i);
	CHECK(i == 0, "walk of %d: %d", n, i);
	list_walk_entry_forward(&l, e, node)
		CHECK(e == &a[i++], "walk of %d: position %d", n, i - 1);
	CHECK(i == n, "walk of %d: %d", n, i);
	list_walk_entry_backward(&l, e, node)
		CHECK(e == &a[--i], "walk of %d: position %d", n, i);
	CHECK(i == 0, "walk of %d: %d", n, i);
	/* every third one is deleted */
	k = 0;
	list_walk_entry_forward_safe(&l, e, t, node) {
		CHECK(e == &a[i], "safe walk of %d: position %d", n, i);
		if (i++ % 3 == 0) {
			list_del(&e->node);
			k++;
		}
	}
	CHECK(i == n, "safe walk of %d: %d", n, i);
	LEN(n - k, "after the deletions");
	i = n - 1;
	list_walk_backward_safe(&l, p, q) {
		while (i % 3 == 0)
			i--;
		CHECK(p == &a[i].node, "backward safe walk of %d: position "
		      "%d", n, i);
		i--;
	}
	CHECK(i == 0 || i == -1, "backward safe walk of %d ends at %d", n, i);
	for (i = 0; i < n; i++) {
		if (i % 3 == 0)
			continue;
		e = list_pop(&l, struct item, node);
		CHECK(e == &a[i], "pop of %d: position %d", n, i);
	}
	CHECK(list_pop(&l, struct item, node) == NULL && list_is_empty(&l),
	      "not empty at the end");
	LEN(0, "at the end");
	free(a);
}

int main(int argc, char **argv)
{
	int k, n, w;
	static char nm[60];
	mc_init(argc, argv);
	mc_explore("heads", heads, NULL);
	for (k = 0; k < 3; k++)
		for (w = 0; w < 2; w++)
			for (n = 0; n <= 4 + (mc_thorough || !w); n++) {
				sprintf(nm, "%s/nodes%d/unlinked%d", w ?
					"walks" : "ops", n, k);
				mc_explore(nm, all, (void *)(intptr_t)
					   (k * 100 + w * 10 + n));
			}
	for (k = 0; k < 16 + mc_thorough; k++) {
		sprintf(nm, "long/%d", k);
		mc_explore(nm, long_lists, (void *)(intptr_t)k);
	}
	mc_explore("members", members, NULL);
	mc_explore("helpers", helpers, NULL);
	return mc_end();
}
