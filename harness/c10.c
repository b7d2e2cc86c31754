/* C10: hash table against a reference map with insertion order */
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#define FUTILS_LIST
#include <futils/hash.h>

/* 1 and 0x2100 hash alike, the others spread */
static const uint32_t keys[] = { 1, 0x2100, 0, 0xffffffffu, 0x80000001u,
	0x10000 };
struct scn { size_t size; int nk, depth, faults, hfree, closure;
	int data;	/* 0 distinct, 1 null, 2 the same for all */
	int pair;	/* two tables, the other with other parameters */
	int blind;	/* no lookup other than those of the sequence */ };
static struct scn *S;
/* the tables and their models; T is the one in use */
static int T;
static struct hash h_[2];
static struct { int k, cst; void *data; } m_[2][8];
static int n_m_[2];
#define h h_[T]
#define m m_[T]
#define n_m n_m_[T]
static char cells[4096];
static int freed[4096], n_cell, want[4096];

static void on_free(void *p)
{
	char *c = p;
	if (!p && S->data == 1)
		c = cells;
	CHECK(c >= cells && c < cells + 4096, "release of a foreign pointer");
	freed[c - cells]++;
}

static int m_find(int k)
{
	int i;
	for (i = 0; i < n_m; i++)
		if (m[i].k == k)
			return i;
	return -1;
}

static void m_release(int i)
{
	if (S->hfree != T)
		want[S->data ? 0 : (char *)m[i].data - cells]++;
	memmove(&m[i], &m[i + 1], (n_m - i - 1) * sizeof(m[0]));
	n_m--;
}

static void observe_key(int k)
{
	void *d = (void *)0x55;
	const void *cd = (void *)0x66;
	int i = m_find(k), r = futils_hash_lookup(&h, keys[k], &d);
	if (i < 0)
		CHECK(r == -ENOENT && d == (void *)0x55,
		      "lookup of the missing key %#x: %d", keys[k], r);
	else if (m[i].cst)
		CHECK(r == -EPERM && d == (void *)0x55, "lookup of "
		      "the constant key %#x: %d", keys[k], r);
	else
		CHECK(r == 0 && d == m[i].data, "lookup of key %#x: "
		      "%d, %s data", keys[k], r, d == m[i].data ?
		      "its" : "other");
	CHECK(futils_hash_lookup(&h, keys[k], NULL) == r, "lookup "
	      "without data");
	r = futils_hash_lookup_const(&h, keys[k], &cd);
	if (i < 0)
		CHECK(r == -ENOENT && cd == (void *)0x66,
		      "const lookup of the missing key %#x: %d",
		      keys[k], r);
	else
		CHECK(r == 0 && cd == m[i].data, "const lookup of "
		      "key %#x: %d, %s data", keys[k], r,
		      cd == m[i].data ? "its" : "other");
}

static void observe_walk(void)
{
	int i = 0, k;
	struct hash_entry *e;
	struct list_node *node;
	/* the walk is the insertion order, both ways */
	list_walk_entry_forward(&h.entries, e, node) {
		CHECK(i < n_m, "walk: more than %d entries", n_m);
		CHECK(e->key == keys[m[i].k], "walk: entry %d has key %#x, "
		      "not %#x", i, e->key, keys[m[i].k]);
		CHECK(e->data == m[i].data && !!e->is_const == m[i].cst,
		      "walk: entry %d has other data", i);
		i++;
	}
	CHECK(i == n_m, "walk: %d entries of %d", i, n_m);
	list_walk_backward(&h.entries, node) {
		CHECK(i > 0, "backward walk: more than %d entries", n_m);
		i--;
		e = list_entry(node, struct hash_entry, node);
		CHECK(e->key == keys[m[i].k], "backward walk: entry %d", i);
	}
	CHECK(i == 0, "backward walk: %d entries missing", i);
	for (k = 0; k < n_cell; k++)
		CHECK(freed[k] == want[k], "data %d was released %d times, "
		      "not %d", k, freed[k], want[k]);
}

/* the first key looked up is the last of the previous time */
static unsigned turn;
static void observe(void)
{
	int t = T, k, i;
	turn++;
	for (k = 0; k < S->nk; k++)
		for (i = 0; i <= S->pair; i++) {
			T = turn & 1 ? i : S->pair - i;
			observe_key(turn & 1 ? k : S->nk - 1 - k);
		}
	for (T = 0; T <= S->pair; T++)
		observe_walk();
	T = t;
}

static void op(int c)
{
	int nk = S->nk, k = c % nk, i = m_find(k), r;
	if (c < 2 * nk) {
		int cst = c >= nk, f0 = vk_faults_done;
		char *d = S->data == 1 ? NULL : S->data ? cells :
			&cells[n_cell];
		n_cell++;
		r = cst ? futils_hash_insert_const(&h, keys[k], d) :
			futils_hash_insert(&h, keys[k], d);
		mc_log("insert%s %#x = %d", cst ? "_const" : "", keys[k], r);
		if (vk_faults_done > f0) {
			CHECK(r == -ENOMEM || (i >= 0 && r == -EEXIST),
			      "insertion without memory: %d", r);
		} else if (i >= 0)
			CHECK(r == -EEXIST, "insertion of the existing key "
			      "%#x: %d", keys[k], r);
		else {
			CHECK(r == 0, "insertion of key %#x: %d", keys[k], r);
			m[n_m].k = k;
			m[n_m].cst = cst;
			m[n_m++].data = d;
		}
	} else if (c < 3 * nk) {
		r = futils_hash_remove(&h, keys[k]);
		mc_log("remove %#x = %d", keys[k], r);
		if (i < 0)
			CHECK(r == -ENOENT, "removal of the missing key %#x: "
			      "%d", keys[k], r);
		else {
			CHECK(r == 0, "removal of key %#x: %d", keys[k], r);
			m_release(i);
		}
	} else if (c > 3 * nk) {
		mc_log("lookup %#x", keys[(c - 1) % nk]);
		observe_key((c - 1) % nk);
	} else {
		r = futils_hash_remove_all(&h);
		mc_log("remove_all = %d", r);
		CHECK(r == 0, "removal of all: %d", r);
		while (n_m)
			m_release(n_m - 1);
	}
	if (!S->blind)
		observe();
}

static void start(void)
{
	int r;
	vk_reset();
	memset(n_m_, 0, sizeof(n_m_));
	T = n_cell = turn = 0;
	memset(freed, 0, sizeof(freed));
	memset(want, 0, sizeof(want));
	memset(h_, 0xa5, sizeof(h_));
	vk_fault_mask = VKM(VKF_MALLOC);
	vk_fault_budget = S->faults;
	r = futils_hash_init(&h, S->size, S->hfree ? on_free : NULL);
	while (r) {
		CHECK(vk_faults_done && r == -ENOMEM, "init(%zu): %d",
		      S->size, r);
		CHECK(vk_mem_live == 0, "failed init: leak");
		vk_faults_done = 0;
		r = futils_hash_init(&h, S->size, S->hfree ? on_free : NULL);
	}
	vk_faults_done = 0;
	if (S->pair) {
		T = 1;
		r = futils_hash_init(&h, S->size ? 0 : 7, S->hfree ? NULL :
				     on_free);
		CHECK(r == 0, "second table: init: %d", r);
		T = 0;
	}
	if (!S->blind)
		observe();
}

static void finish(void)
{
	int i;
	for (T = 0; T <= S->pair; T++) {
		while (n_m)
			m_release(n_m - 1);
		CHECK(futils_hash_destroy(&h) == 0, "destroy");
		if (S->pair && T == 0) {
			/* the other is as it was */
			T = 1;
			for (i = 0; i < S->nk; i++)
				observe_key(i);
			observe_walk();
			T = 0;
		}
	}
	T = 0;
	for (i = 0; i < n_cell; i++)
		CHECK(freed[i] == want[i], "destruction: data %d was released "
		      "%d times, not %d", i, freed[i], want[i]);
	CHECK(vk_mem_live == 0, "leak of %d blocks", vk_mem_live);
}

static void run(void *arg)
{
	int i;
	S = arg;
	start();
	for (i = 0; i < S->depth || S->closure; i++) {
		if (S->pair) {
			T = mc_choose(2, "table");
			mc_log("table %d:", T);
		}
		op(mc_choose((3 + S->blind) * S->nk + 1, "operation"));
		if (S->closure && mc_at_frontier()) {
			uint64_t s = mc_mix(n_m, vk_fault_budget);
			int j;
			for (j = 0; j < n_m; j++)
				s = mc_mix(s, m[j].k * 2 + m[j].cst);
			if (mc_state(s)) {
				finish();
				mc_prune();
			}
		}
	}
	mc_outcome(n_m);
	if (S->blind)
		observe();
	finish();
}

/* many keys: every removal position */
static void many(void *arg)
{
	static struct scn s;
	size_t size = (size_t)(uintptr_t)arg;
	enum { N = 300 };
	int i, k, step, r;
	void *d;
	struct hash_entry *e;
	struct list_node *node;
	for (step = 1; step <= 7; step++) {
		s = (struct scn){ size, 0, 0, 0, 1, 0 };
		S = &s;
		start();
		for (i = 0; i < N; i++) {
			uint32_t key = (uint32_t)i * 0x01010101u * step +
				(i << 16);
			mc_case(size, step, i, 0);
			mc_n_nontrivial++;
			mc_count_transitions(3);
			r = futils_hash_insert(&h, key, &cells[i]);
			CHECK(r == 0, "insertion of key %#x: %d", key, r);
			CHECK(futils_hash_insert(&h, key, &cells[i + N]) ==
			      -EEXIST, "key %#x inserted twice", key);
		}
		for (k = 0; k < 3; k++)
			for (i = k; i < N; i += 3) {
				uint32_t key = (uint32_t)i * 0x01010101u *
					step + (i << 16);
				CHECK(futils_hash_lookup(&h, key, &d) == 0 &&
				      d == &cells[i], "key %#x", key);
				if (k == 2)
					continue;
				CHECK(futils_hash_remove(&h, key) == 0,
				      "removal of key %#x", key);
				CHECK(futils_hash_lookup(&h, key, &d) ==
				      -ENOENT, "key %#x is still there", key);
				CHECK(freed[i] == 1, "not released");
			}
		i = 2;
		list_walk_entry_forward(&h.entries, e, node) {
			CHECK(e->data == &cells[i], "order");
			i += 3;
		}
		CHECK(i == 2 + N, "walk");
		CHECK(futils_hash_destroy(&h) == 0, "destroy");
		for (i = 0; i < N; i++)
			CHECK(freed[i] == 1, "data %d released %d times", i,
			      freed[i]);
		CHECK(!vk_mem_live, "leak");
	}
}

/* numbers of entries that would not fit a narrow counter */
enum { LARGE = 200000 };
static uint8_t l_cell[LARGE], l_freed[LARGE];
static void l_free(void *p)
{
	uint8_t *c = p;
	CHECK(c >= l_cell && c < l_cell + LARGE, "release of a foreign "
	      "pointer");
	l_freed[c - l_cell]++;
}

static void large(void *arg)
{
	static const struct { size_t size; int n, mul; } q[] = {
		{ 0, 5000, 1 }, { 30, 20000, 1 }, { 1000, 70000, 1 },
		{ 100000, LARGE, 1 }, { 1000, 70000, 65537 },
		{ 100000, LARGE, 40503 } };
	int k = (int)(intptr_t)arg, n = q[k].n, i, r, left;
	struct hash_entry *e;
	struct list_node *node;
	vk_reset();
	memset(l_freed, 0, sizeof(l_freed));
	CHECK(!futils_hash_init(&h, q[k].size, l_free), "init");
#define KEY(i) ((uint32_t)(i) * (uint32_t)q[k].mul)
	for (i = 0; i < n; i++) {
		r = i & 1 ? futils_hash_insert(&h, KEY(i), &l_cell[i]) :
			futils_hash_insert_const(&h, KEY(i), &l_cell[i]);
		CHECK(r == 0, "insertion number %d: %d", i, r);
		mc_n_cases++;
	}
	CHECK(list_length(&h.entries) == (size_t)n, "%zu entries, not %d",
	      list_length(&h.entries), n);
	for (i = 0; i < n; i++) {
		const void *cd = NULL;
		r = futils_hash_lookup_const(&h, KEY(i), &cd);
		CHECK(r == 0 && cd == &l_cell[i], "lookup of entry %d: %d, "
		      "other data", i, r);
		CHECK(futils_hash_insert(&h, KEY(i), &l_cell[i]) == -EEXIST,
		      "entry %d inserted twice", i);
		mc_n_cases++;
	}
	for (i = 0, left = n; i < n; i += 3, left--) {
		r = futils_hash_remove(&h, KEY(i));
		CHECK(r == 0 && l_freed[i] == 1, "removal of entry %d: %d, "
		      "released %d times", i, r, l_freed[i]);
		CHECK(futils_hash_remove(&h, KEY(i)) == -ENOENT, "entry %d "
		      "removed twice", i);
		mc_n_cases++;
	}
	i = 0;
	list_walk_entry_forward(&h.entries, e, node) {
		i += i % 3 == 0;
		CHECK(e->key == KEY(i) && e->const_data == &l_cell[i], "walk: "
		      "not entry %d", i);
		CHECK(l_freed[i] == 0, "entry %d released", i);
		i++;
		left--;
	}
	CHECK(left == 0, "walk: %d entries missing", left);
	r = k & 1 ? futils_hash_remove_all(&h) : futils_hash_destroy(&h);
	CHECK(r == 0, "removal of all: %d", r);
	for (i = 0; i < n; i++)
		CHECK(l_freed[i] == 1, "entry %d of %d released %d times", i,
		      n, l_freed[i]);
	if (k & 1)
		CHECK(list_is_empty(&h.entries) && !futils_hash_destroy(&h),
		      "removal of all");
	CHECK(!vk_mem_live, "leak");
}

/* one bucket for all, more entries than 16 bits count */
static void crowded(void *arg)
{
	int n = mc_thorough ? 140000 : 65600, i, r, left = n;
	static const int at[] = { 0, 1, 254, 255, 256, 257, 1000, 32767, 32768,
		65534, 65535, 65536, 65537, 65598, 65599 };
	struct hash_entry *e;
	struct list_node *node;
	vk_reset();
	memset(l_freed, 0, sizeof(l_freed));
	CHECK(!futils_hash_init(&h, 0, l_free), "init");
	for (i = 0; i < n; i++) {
		r = futils_hash_insert(&h, i * 77u, &l_cell[i]);
		CHECK(r == 0, "insertion number %d: %d", i, r);
		mc_n_cases++;
	}
	for (i = 0; i < 15; i++) {
		void *d = NULL;
		CHECK(futils_hash_insert(&h, at[i] * 77u, l_cell) == -EEXIST,
		      "entry %d inserted twice", at[i]);
		CHECK(!futils_hash_lookup(&h, at[i] * 77u, &d) &&
		      d == &l_cell[at[i]], "lookup of entry %d", at[i]);
		mc_n_cases++;
	}
	CHECK(futils_hash_lookup(&h, n * 77u, NULL) == -ENOENT, "a missing "
	      "entry is found");
	for (i = 0; i < 15; i += 2) {
		CHECK(!futils_hash_remove(&h, at[i] * 77u) &&
		      l_freed[at[i]] == 1, "removal of entry %d", at[i]);
		CHECK(futils_hash_lookup(&h, at[i] * 77u, NULL) == -ENOENT,
		      "entry %d is still there", at[i]);
		left--;
		mc_n_cases++;
	}
	i = 0;
	list_walk_entry_forward(&h.entries, e, node) {
		while (i < n && l_freed[i])
			i++;
		CHECK(e->key == i * 77u && e->data == &l_cell[i], "walk: not "
		      "entry %d", i);
		i++;
		left--;
	}
	CHECK(left == 0, "walk: %d entries missing", left);
	CHECK(!(arg ? futils_hash_destroy(&h) : futils_hash_remove_all(&h)),
	      "removal of all");
	for (i = 0; i < n; i++)
		CHECK(l_freed[i] == 1, "entry %d of %d released %d times", i,
		      n, l_freed[i]);
	if (!arg)
		CHECK(list_is_empty(&h.entries) && !futils_hash_destroy(&h),
		      "removal of all");
	CHECK(!vk_mem_live, "leak");
}

/* every size: created, or refused for want of memory */
static void sizes(void *arg)
{
	static struct scn s = { 0, 3, 0, 0, 1, 0, 0 };
	size_t i, k;
	int b, d, r;
	(void)arg;
	S = &s;
	for (i = 0; i < (mc_thorough ? 140000 : 3000); i += i < 2000 ? 1 : 97) {
		s.size = i;
		mc_case(i, 0, 0, 2);
		mc_n_nontrivial++;
		mc_count_transitions(1);
		start();
		for (k = 0; k < 3; k++)
			op(k);
		op(2 * 3 + 1);
		op(1);
		finish();
	}
	for (b = 10; b <= 64; b++)
		for (d = -70; d <= 3; d++) {
			i = (b < 64 ? (size_t)1 << b : 0) + d;
			if (b == 64 && d > 0)
				break;
			mc_case(i, 1, 0, 2);
			mc_n_nontrivial++;
			mc_count_transitions(1);
			vk_reset();
			vk_fault_always = VKM(VKF_MALLOC);
			memset(&h, 0xa5, sizeof(h));
			r = futils_hash_init(&h, i, on_free);
			CHECK(r == -ENOMEM, "init(%zu) without memory: %d", i,
			      r);
			CHECK(!vk_mem_live, "failed init: leak");
		}
}

static void args(void *arg)
{
	static struct scn s = { 3, 2, 0, 0, 1, 0 };
	void *d;
	const void *cd;
	(void)arg;
	S = &s;
	start();
	CHECK(futils_hash_init(NULL, 3, NULL) == -EINVAL, "null");
	CHECK(futils_hash_destroy(NULL) == -EINVAL, "null");
	CHECK(futils_hash_insert(NULL, 1, cells) == -EINVAL, "null");
	CHECK(futils_hash_insert_const(NULL, 1, cells) == -EINVAL, "null");
	CHECK(futils_hash_remove(NULL, 1) == -EINVAL, "null");
	CHECK(futils_hash_remove_all(NULL) == -EINVAL, "null");
	CHECK(futils_hash_lookup(NULL, 1, &d) == -EINVAL, "null");
	CHECK(futils_hash_lookup_const(NULL, 1, &cd) == -EINVAL, "null");
	observe();
	finish();
}

int main(int argc, char **argv)
{
	static const size_t size[] = { 0, 1, 2, 3, 6, 7, 30, 1000 };
	static struct scn pool[200];
	static char nm[80];
	int i, f, hf, n = 0;
	mc_init(argc, argv);
	for (i = 0; i < 8; i++)
		for (hf = 0; hf < 2; hf++)
			for (f = 0; f < 2; f++) {
				/* all sequences, whatever the state */
				pool[n] = (struct scn){ size[i], 3,
					mc_thorough ? 6 : f ? 4 : 5, f, hf, 0
				};
				sprintf(nm, "all/size%zu/hfree%d/faults%d",
					size[i], hf, f);
				mc_explore(nm, run, &pool[n++]);
				/* all reachable contents, any history */
				pool[n] = (struct scn){ size[i],
					mc_thorough ? 5 : 4, 0, f, hf, 1 };
				sprintf(nm, "closure/size%zu/hfree%d/faults%d",
					size[i], hf, f);
				mc_explore(nm, run, &pool[n++]);
			}
	for (i = 0; i < 8; i++)
		for (hf = 0; hf < 2; hf++)
			for (f = 1; f < 3; f++) {
				pool[n] = (struct scn){ size[i], 2,
					mc_thorough ? 5 : 4, 0, hf, 0, f };
				sprintf(nm, "%s data/size%zu/hfree%d", f == 1 ?
					"null" : "same", size[i], hf);
				mc_explore(nm, run, &pool[n++]);
			}
	/* two tables of different sizes and release functions */
	for (i = 0; i < 4; i++)
		for (hf = 0; hf < 2; hf++) {
			pool[n] = (struct scn){ size[i * 2 + 1], 2,
				mc_thorough ? 6 : 4, 0, hf, 0, 0, 1 };
			sprintf(nm, "two tables/size%zu/hfree%d",
				size[i * 2 + 1], hf);
			mc_explore(nm, run, &pool[n++]);
		}
	for (i = 0; i < 4; i++)
		for (hf = 0; hf < 2; hf++) {
			pool[n] = (struct scn){ size[i * 2], 2,
				mc_thorough ? 6 : 5, 0, 1, 0, 0, hf, 1 };
			if (hf)
				pool[n].depth = mc_thorough ? 5 : 4;
			sprintf(nm, "blind%s/size%zu", hf ? ", two tables" :
				"", size[i * 2]);
			mc_explore(nm, run, &pool[n++]);
		}
	mc_explore("sizes", sizes, NULL);
	for (i = 0; i < 8; i++) {
		sprintf(nm, "many/size%zu", size[i]);
		mc_explore(nm, many, (void *)size[i]);
	}
	for (i = 0; i < 6; i++) {
		sprintf(nm, "large/%d", i);
		mc_explore(nm, large, (void *)(intptr_t)i);
	}
	mc_explore("crowded/0", crowded, NULL);
	mc_explore("crowded/1", crowded, &h);
	mc_explore("args", args, NULL);
	mc_sample("insert 1, insert_const 0x2100 (same hash), remove 1, "
		  "insert 1: order 0x2100, 1");
	return mc_end();
}
