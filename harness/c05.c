/* C05: safe write without checksum: old or new content, nothing else */
#include "sw.h"
#include <sys/mman.h>

struct scn {
	int prev;		/* -1: absent, else size */
	int stale;		/* leftover temporary file: size, -1 none */
	size_t piece[3];
	int np, how;
	int end;		/* 0 commit, 1 rollback */
	int crash, faults;
};
static struct scn *S;
static struct content old_c, new_c, third;

/* a later safe write of the same file works */
static void later(void)
{
	struct futils_safew_file *f;
	static const size_t pc[] = { 4097 };
	vfs_crash_on = 0;
	vk_fault_mask = 0;
	f = futils_safew_fopen(P);
	CHECK(f, "later open failed");
	CHECK(!sw_write(f, &third, pc, 1, 0), "later write failed");
	CHECK(!futils_safew_fclose_commit(f), "later commit failed");
	CHECK(is_content(P, &third), "later commit: other content");
	CHECK(vfs_count() == 1, "files after the later commit:%s",
	      vfs_list());
	sw_clean();
}

static int has_old(void)
{
	return S->prev < 0 ? vfs_get(P) == NULL : is_content(P, &old_c);
}

static void run(void *arg)
{
	struct futils_safew_file *f;
	volatile int stage = 0;	/* 1 commit called, 2 succeeded, 3 failed */
	int r, bad, i;
	size_t n = 0;
	S = arg;
	sw_low = S->prev == 10;
	sw_reset();
	for (i = 0; i < S->np; i++)
		n += S->piece[i];
	content_make(&new_c, n, 2);
	content_make(&third, 4097, 3);
	if (S->prev >= 0) {
		content_make(&old_c, S->prev, 1);
		vfs_set(P, old_c.d, old_c.n);
	}
	if (S->stale >= 0) {
		static struct content st;
		content_make(&st, S->stale, 4);
		vfs_set(P ".tmp", st.d, st.n);
	}
	vfs_barrier();
	if (setjmp(vfs_crash_jb)) {
		int nw;
		/* after the crash */
		vk_fault_mask = 0;
		nw = is_content(P, &new_c);
		mc_state(mc_mix(vfs_hash(), stage));
		if (stage == 2 && !vfs_crashed_power)
			CHECK(nw, "death after a successful commit: not the "
			      "new content:%s", vfs_list());
		else if (stage == 1 || stage == 2)
			CHECK(has_old() || nw, "%s during or after the commit:"
			      " neither old nor new content:%s",
			      vfs_crashed_power ? "power loss" : "death",
			      vfs_list());
		else
			CHECK(has_old(), "%s: the previous content is lost "
			      "without a commit:%s", vfs_crashed_power ?
			      "power loss" : "death", vfs_list());
		mc_outcome(nw * 8 + stage + vfs_crashed_power * 64);
		vk_mem_live = 0;
		later();
		return;
	}
	vfs_crash_on = S->crash;
	vk_fault_mask = S->faults ? VKM(VKF_FOPEN) | VKM(VKF_OPEN) |
		VKM(VKF_FWRITE) | VKM(VKF_FSYNC) | VKM(VKF_CLOSE) |
		VKM(VKF_RENAME) | VKM(VKF_UNLINK) | VKM(VKF_MALLOC) : 0;
	vk_fault_budget = S->faults;
	if (S->faults == 1)
		sw_errors();
	f = futils_safew_fopen(P);
	mc_log("open: %s", f ? "ok" : "failed");
	if (!f) {
		CHECK(vk_faults_done, "open failed for no reason");
		CHECK(has_old(), "a failed open changed the file:%s",
		      vfs_list());
		sw_clean();
		later();
		return;
	}
	CHECK(has_old(), "open changed the file:%s", vfs_list());
	bad = sw_write(f, &new_c, S->piece, S->np, S->how);
	CHECK(has_old(), "writing changed the file:%s", vfs_list());
	if (S->end) {
		int before = vk_faults_done;
		r = futils_safew_fclose_rollback(f);
		mc_log("rollback = %d", r);
		if (vk_faults_done == before)
			CHECK(r == 0, "rollback failed for no reason");
		CHECK(has_old(), "rollback: the previous content is lost:%s",
		      vfs_list());
		stage = 4;
	} else {
		stage = 1;
		r = futils_safew_fclose_commit(f);
		mc_log("commit = %d", r);
		stage = r == 0 ? 2 : 3;
		if (!vk_faults_done)
			CHECK(r == 0, "commit failed for no reason");
		if (bad)
			CHECK(r != 0, "commit succeeds after a failed write");
		CHECK(r != 0 || !(vk_hard_sites & (VKM(VKF_FSYNC) |
			VKM(VKF_CLOSE))), "commit succeeds "
		      "although a sync or close failed");
		if (r == 0) {
			const struct vfs_inode *o = vfs_get(P);
			CHECK(is_content(P, &new_c), "successful commit: not "
			      "the bytes written:%s", vfs_list());
			CHECK(!o->dirty && !o->poisoned && o->durlen ==
			      o->curlen, "successful commit: the content is "
			      "not synchronized");
		} else
			CHECK(has_old(), "failed commit: the previous content "
			      "is lost:%s", vfs_list());
	}
	mc_outcome(stage);
	/* nothing left behind, unless its removal itself failed */
	if (!(vk_fault_sites & VKM(VKF_UNLINK)))
		CHECK(vfs_count() == !!vfs_get(P), "files left behind:%s",
		      vfs_list());
	sw_clean();
	/* and a crash later on */
	if (S->crash && mc_choose(2, "crash at the end"))
		vfs_crash();
	mc_state(vfs_hash());
	later();
}

/* two files at once, and one after another */
static void two(void *arg)
{
	static struct content a, b, c;
	struct futils_safew_file *f, *g;
	int e1 = (int)(intptr_t)arg & 1, e2 = (int)(intptr_t)arg >> 1;
	static const size_t pc[] = { 5000 };
	sw_low = 0;
	sw_reset();
	content_make(&a, 4000, 1);
	content_make(&b, 5000, 2);
	content_make(&c, 30, 3);
	vfs_set("/d/a", c.d, c.n);
	vfs_set("/d/b", c.d, c.n);
	f = futils_safew_fopen("/d/a");
	g = futils_safew_fopen("/d/b");
	CHECK(f && g, "open");
	CHECK(!sw_write(f, &a, pc, 1, 0) && !sw_write(g, &b, pc, 1, 0),
	      "write");
	CHECK(0 == (e1 ? futils_safew_fclose_rollback(f) :
		    futils_safew_fclose_commit(f)), "close");
	CHECK(is_content("/d/a", e1 ? &c : &a), "first");
	CHECK(is_content("/d/b", &c), "the other file changed");
	CHECK(0 == (e2 ? futils_safew_fclose_rollback(g) :
		    futils_safew_fclose_commit(g)), "close");
	CHECK(is_content("/d/a", e1 ? &c : &a), "first");
	CHECK(is_content("/d/b", e2 ? &c : &b), "second");
	CHECK(vfs_count() == 2, "files left:%s", vfs_list());
	sw_clean();
}

/* more commits and rollbacks, or writes in one file, than 16 bits count */
static void often(void *arg)
{
	static uint8_t d[70000];
	struct futils_safew_file *f;
	int i, many = (int)(intptr_t)arg, n = many ? 66000 : 70000;
	uint32_t last = 0xffffffff;
	sw_low = 0;
	sw_reset();
	vfs_set(P, &last, 4);
	for (i = 0; !many && i < n; i++) {
		uint32_t v = i;
		mc_n_cases++;
		f = futils_safew_fopen(P);
		CHECK(f, "open number %d", i);
		if (i & 1)
			CHECK(futils_safew_fwrite(&v, 1, 4, f) == 4,
			      "write in file number %d", i);
		else
			CHECK(futils_safew_fprintf(f, "%04x", v & 0xffff) == 4,
			      "print in file number %d", i);
		CHECK(vfs_is(P, &last, 4), "writing number %d changes the file",
		      i);
		if (i % 5 == 2) {
			CHECK(!futils_safew_fclose_rollback(f), "rollback %d",
			      i);
		} else {
			CHECK(!futils_safew_fclose_commit(f), "commit %d", i);
			if (i & 1) {
				last = v;
			} else {
				char t[8];
				sprintf(t, "%04x", v & 0xffff);
				memcpy(&last, t, 4);
			}
		}
		CHECK(vfs_is(P, &last, 4) && vfs_count() == 1, "number %d: "
		      "files%s", i, vfs_list());
		sw_clean();
		vfs_barrier();
	}
	if (!many)
		return;
	f = futils_safew_fopen(P);
	CHECK(f, "open");
	for (i = 0; i < n; i++) {
		d[i] = i * 7 + (i >> 8);
		mc_n_cases++;
		CHECK(futils_safew_fwrite(&d[i], 1, 1, f) == 1, "write number "
		      "%d", i);
	}
	CHECK(!futils_safew_fclose_commit(f), "commit of %d writes", n);
	CHECK(vfs_is(P, d, n) && vfs_count() == 1, "not what %d writes wrote",
	      n);
	sw_clean();
}

/* writes around 2^31 and 2^32 items, or of items of as many bytes */
static void huge(void *arg)
{
	static const size_t len[] = { (1ull << 32) + 5, 1ull << 31,
		1ull << 32, (1ull << 31) - 1, (1ull << 32) - 1,
		3ull << 31 };
	int i = (int)(intptr_t)arg, one = i & 1, fail = i >> 1 & 1, r;
	size_t n = len[i >> 2], k;
	struct futils_safew_file *f;
	void *src = mmap(NULL, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS |
			 MAP_NORESERVE, -1, 0);
	if (src == MAP_FAILED)
		mc_broken("mmap");
	sw_low = 0;
	sw_reset();
	content_make(&old_c, 10, 1);
	vfs_set(P, old_c.d, old_c.n);
	vfs_huge = 1;
	f = futils_safew_fopen(P);
	CHECK(f, "open");
	if (fail) {
		vk_fault_mask = VKM(VKF_FWRITE);
		vk_fault_budget = 1;
	}
	k = one ? futils_safew_fwrite(src, n, 1, f) :
		futils_safew_fwrite(src, 1, n, f);
	if (!vk_faults_done)
		CHECK(k == (one ? 1 : n), "fwrite of %zu bytes = %zu", n, k);
	else
		CHECK(k < (one ? 1 : n), "fwrite of %zu bytes = %zu after an "
		      "error", n, k);
	CHECK(is_content(P, &old_c), "writing changed the file");
	r = vk_faults_done;
	vk_fault_mask = 0;
	if (r) {
		CHECK(futils_safew_fclose_commit(f), "commit succeeds after a "
		      "failed write of %zu bytes", n);
		CHECK(is_content(P, &old_c), "the previous content is lost");
	} else {
		CHECK(!futils_safew_fclose_commit(f), "commit failed after a "
		      "write of %zu bytes", n);
		CHECK(vfs_get(P) && vfs_get(P)->curlen == n, "not the bytes "
		      "written:%s", vfs_list());
	}
	mc_outcome(mc_mix(n, one * 4 + fail * 2 + !!r));
	munmap(src, n);
	sw_clean();
}

/* every kind of name */
static void names(void *arg)
{
	static struct content a, b;
	static const size_t pc[] = { 50 };
	const char *n;
	char other[2][64];
	int k, how, old, j;
	(void)arg;
	content_make(&a, 20, 1);
	content_make(&b, 50, 2);
	for (k = 0; (n = sw_name(k)); k++)
	for (how = 0; how < 3; how++)
	for (old = 0; old < 2; old++) {
		struct futils_safew_file *f;
		sw_low = 0;
		sw_reset();
		mc_case(k, how, old, 0);
		mc_n_nontrivial++;
		mc_count_transitions(1);
		snprintf(other[0], 64, "%s~", n);
		snprintf(other[1], 64, "%s.tmp.tmp", n);
		for (j = 0; j < 2; j++)
			vfs_set(other[j], a.d, a.n);
		if (old)
			vfs_set(n, a.d, a.n);
		f = futils_safew_fopen(n);
		CHECK(f, "\"%s\": not opened", n);
		CHECK(!sw_write(f, &b, pc, 1, 0), "write");
		CHECK(old ? is_content(n, &a) : !vfs_get(n), "\"%s\": changed "
		      "before the commit, files:%s", n, vfs_list());
		if (how == 2)
			CHECK(!futils_safew_fclose_rollback(f), "rollback");
		else
			CHECK(!(how ? futils_safew_fclose_commit_with_crc(f) :
				futils_safew_fclose_commit(f)), "commit");
		CHECK(how < 2 ? is_content(n, &b) : old ? is_content(n, &a) :
		      !vfs_get(n), "\"%s\": wrong content, files:%s", n,
		      vfs_list());
		CHECK(vfs_count() == 2 + (how < 2 || old) + (how == 1),
		      "\"%s\": files:%s", n, vfs_list());
		for (j = 0; j < 2; j++)
			CHECK(is_content(other[j], &a), "\"%s\": %s changed",
			      n, other[j]);
		if (how == 1)
			CHECK(!futils_safew_file_check(n) && is_content(n, &b),
			      "\"%s\": check, files:%s", n, vfs_list());
		sw_clean();
	}
}

/* every length of the path */
static void paths(void *arg)
{
	char path[300], other[300];
	static struct content a, b;
	static const size_t pc[] = { 50 };
	int l;
	(void)arg;
	content_make(&a, 20, 1);
	content_make(&b, 50, 2);
	for (l = 1; l < 300; l++) {
		struct futils_safew_file *f;
		sw_low = 0;
		sw_reset();
		memset(path, 'p', l);
		path[l] = 0;
		if (l > 4)
			memcpy(path, "/d/", 3);
		mc_case(l, 0, 0, 0);
		mc_n_nontrivial++;
		mc_count_transitions(1);
		snprintf(other, sizeof(other), "%s", path);
		if (l > 2)
			other[l - 1] = 0;
		else
			strcpy(other, "q");
		if (l < 160)
			vfs_set(path, a.d, a.n);
		if (l < 160)
			vfs_set(other, a.d, a.n);
		f = futils_safew_fopen(path);
		CHECK(f || l > 100, "path of %d bytes refused", l);
		if (f) {
			CHECK(!sw_write(f, &b, pc, 1, 0), "write");
			CHECK(!futils_safew_fclose_commit(f), "commit");
			CHECK(is_content(path, &b), "path of %d bytes: the "
			      "content went elsewhere", l);
			CHECK(vfs_count() == 2, "path of %d bytes: files:%s",
			      l, vfs_list());
		} else if (l < 160)
			CHECK(is_content(path, &a), "refused but changed");
		if (l < 160)
			CHECK(is_content(other, &a), "another file changed");
		sw_clean();
	}
	CHECK(futils_safew_fclose_commit(NULL) == -1, "null");
	CHECK(futils_safew_fclose_commit_with_crc(NULL) == -1, "null");
	CHECK(futils_safew_fclose_rollback(NULL) == -1, "null");
}

static struct scn *mk(struct scn s)
{
	static struct scn pool[30000];
	static int n;
	if (n == 30000)
		mc_broken("scenarios");
	pool[n] = s;
	return &pool[n++];
}

static void add(struct scn s)
{
	static char nm[120];
	sprintf(nm, "prev%d/stale%d/%d:%zu,%zu,%zu/how%d/%s/crash%d/faults%d",
		s.prev, s.stale, s.np, s.piece[0], s.piece[1], s.piece[2],
		s.how, s.end ? "rollback" : "commit", s.crash, s.faults);
	mc_explore(nm, run, mk(s));
}

int main(int argc, char **argv)
{
	static const int prev[] = { -1, 0, 10, 5000 };
	static const int stale[] = { -1, 0, 6000 };
	static const struct { int np; size_t p[3]; } w[] = {
		{ 0, { 0 } }, { 1, { 1 } }, { 1, { 4095 } }, { 1, { 4096 } },
		{ 1, { 4097 } }, { 1, { 8192 } }, { 1, { 8193 } },
		{ 2, { 10, 20 } }, { 2, { 4096, 1 } }, { 2, { 4095, 2 } },
		{ 2, { 1, 4096 } }, { 3, { 3000, 3000, 3000 } },
		{ 3, { 5, 5000, 5 } }, { 3, { 8192, 1, 8192 } },
		{ 2, { 0, 7 } } };
	static const struct { int np; size_t p[2]; } big[] = {
		{ 1, { 65535 } }, { 1, { 65536 } }, { 1, { 65537 } },
		{ 1, { 131072 } }, { 1, { 196609 } }, { 2, { 65536, 1 } },
		{ 2, { 131071, 131073 } }, { 2, { 5, 65536 } } };
	int p, s, i, h, e, m;
	mc_init(argc, argv);
	for (p = 0; p < 4; p++)
	for (s = 0; s < 3; s++)
	for (i = 0; i < 15; i++)
	for (h = 0; h < 5; h++)
	for (e = 0; e < 2; e++)
	/* crash; one fault; two faults; a fault and a crash; three faults */
	for (m = 0; m < 5; m++) {
		static const int cr[] = { 2, 0, 0, 2, 0 };
		static const int fa[] = { 0, 1, 2, 1, 3 };
		struct scn x = { prev[p], stale[s], { w[i].p[0], w[i].p[1],
			w[i].p[2] }, w[i].np, h, e, cr[m], fa[m] };
		/* all pieces the same way */
		if (w[i].np < 2 && h == 3)
			continue;
		if (m == 4 && !mc_thorough)
			continue;
		add(x);
	}
	for (i = 0; i < (int)(sizeof(big) / sizeof(*big)); i++)
	for (h = 0; h < 5; h++)
	for (m = 0; m < 3; m++) {
		static const int cr[] = { 2, 0, 2 }, fa[] = { 0, 1, 1 };
		struct scn x = { 100, -1, { big[i].p[0], big[i].p[1] },
			big[i].np, h, 0, cr[m], fa[m] };
		if (big[i].np < 2 && h == 3)
			continue;
		add(x);
	}
	for (i = 0; i < (mc_thorough ? 24 : 12); i++) {
		static char nm[20];
		sprintf(nm, "huge/%d", i);
		mc_explore(nm, huge, (void *)(intptr_t)i);
	}
	for (i = 0; i < 4; i++) {
		static char nm[20];
		sprintf(nm, "two/%d", i);
		mc_explore(nm, two, (void *)(intptr_t)i);
	}
	mc_explore("paths", paths, NULL);
	mc_explore("names", names, NULL);
	mc_sample("previous file of 10 bytes; open, fwrite 4096 + 1 bytes, "
		  "commit; crash at every point, every surviving prefix, torn "
		  "data; then a later safe write");
	mc_explore("often/0", often, NULL);
	mc_explore("often/1", often, (void *)1);
	return mc_end();
}
