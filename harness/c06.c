/* C06: safe write with checksum, crashes at any point and in the recovery */
#include "sw.h"

struct scn {
	int prev;		/* -1: none, else the size of the previous one */
	size_t piece[3];
	int np, how;
	int end;		/* 0 commit, 1 rollback */
	int crash, faults;
	int nested;		/* crashes during the recovery */
	int rfaults;		/* failures during the recovery */
	int zeros;		/* the new one is the previous one after zeros,
				 * which a checksum may not see */
};
static struct scn *S;
static struct content old_c, new_c;
static uint8_t old_crc[64], new_crc[64];
static size_t old_crclen, new_crclen;

static void crc_of(const struct content *c, uint8_t *crc, size_t *len)
{
	static const size_t pc[] = { WMAX };
	const struct vfs_inode *o;
	struct futils_safew_file *f = futils_safew_fopen(P);
	CHECK(f && !sw_write(f, c, pc, 1, 0) &&
	      !futils_safew_fclose_commit_with_crc(f), "first write failed");
	CHECK(is_content(P, c), "first commit: other content");
	o = vfs_get(P ".crc");
	CHECK(o && o->curlen < 64 && vfs_count() == 2, "first commit: "
	      "files:%s", vfs_list());
	CHECK(!o->dirty && o->durlen == o->curlen,
	      "successful commit: the checksum is not synchronized");
	CHECK(!vfs_get(P)->dirty, "successful commit: the content is not "
	      "synchronized");
	*len = o->curlen;
	memcpy(crc, o->cur, *len);
}

static int has_old(void)
{
	return S->prev < 0 ? vfs_count() == 0 :
		is_content(P, &old_c) && vfs_count() == 2 &&
		vfs_is(P ".crc", old_crc, old_crclen);
}

static int has_new(void)
{
	return is_content(P, &new_c) && vfs_count() == 2 &&
		vfs_is(P ".crc", new_crc, new_crclen);
}

/* stage 0: before the commit, 1 during, 2 succeeded, 3 failed, 4 rollback */
static void verdict(int stage, int crashes, int power)
{
	int r, again;
	const char *when = crashes ? power ? "after a power loss" :
		"after a death" : "without crash";
	vfs_crash_on = 0;
	r = futils_safew_file_check(P);
	mc_log("check = %d:%s", r, vfs_list());
	CHECK(r == 0 || r == -1, "check: %d", r);
	CHECK((r == 0) == (vfs_get(P) != NULL), "%s: check = %d, files:%s",
	      when, r, vfs_list());
	CHECK(has_old() || has_new(), "%s (stage %d): neither the previous "
	      "nor the new pair after the check (%d):%s", when, stage, r,
	      vfs_list());
	if (S->prev >= 0)
		CHECK(r == 0, "%s: check failed", when);
	if (stage == 0 || stage == 4)
		CHECK(has_old(), "%s without a commit: not the previous "
		      "version:%s", when, vfs_list());
	if (stage == 2 && !power)
		CHECK(has_new(), "%s, after a successful commit: not the new "
		      "version:%s", when, vfs_list());
	again = futils_safew_file_check(P);
	CHECK(again == r && (has_old() || has_new()), "second check: %d",
	      again);
	sw_clean();
	mc_state(mc_mix(vfs_hash(), stage * 8 + crashes));
	mc_outcome(mc_mix(has_new(), stage * 64 + crashes * 2 + power));
}

/* a check during which the system may fail; a synchronization that fails
 * loses the data it was for, so that no crash may follow it */
static void failing_check(int budget)
{
	static const int open_e[] = { EMFILE, EACCES, 0 }, err[] = { EIO, 0 };
	volatile int r;
	vk_errs[VKF_FOPEN] = vk_errs[VKF_OPEN] = open_e;
	vk_errs[VKF_FREAD] = vk_errs[VKF_READ] = vk_errs[VKF_RENAME] =
		vk_errs[VKF_FSYNC] = vk_errs[VKF_CLOSE] =
		vk_errs[VKF_UNLINK] = err;
	vk_fault_mask = VKM(VKF_FOPEN) | VKM(VKF_OPEN) | VKM(VKF_FREAD) |
		VKM(VKF_READ) | VKM(VKF_RENAME) | VKM(VKF_CLOSE) |
		VKM(VKF_UNLINK) | (vfs_crash_on ? 0 : VKM(VKF_FSYNC));
	vk_fault_budget = budget;
	r = futils_safew_file_check(P);
	vk_fault_mask = 0;
	mc_log("check with failures = %d:%s", r, vfs_list());
	if (r == 0)
		CHECK(has_old() || has_new() || vk_faults_done, "check with "
		      "failures = %d, files:%s", r, vfs_list());
}

static void run(void *arg)
{
	struct futils_safew_file *f;
	volatile int stage = 0, crashes = 0, power = 0;
	int r, bad, i;
	size_t n = 0;
	S = arg;
	sw_low = S->prev == 10;
	sw_reset();
	for (i = 0; i < S->np; i++)
		n += S->piece[i];
	content_make(&new_c, n, 2);
	if (S->prev >= 0)
		content_make(&old_c, S->prev, 1);
	if (S->zeros) {
		memset(new_c.d, 0, S->zeros);
		memcpy(new_c.d + S->zeros, old_c.d, old_c.n);
		if (n != S->zeros + old_c.n)
			mc_broken("sizes of a twin");
	}
	crc_of(&new_c, new_crc, &new_crclen);
	sw_reset();
	if (S->prev >= 0) {
		crc_of(&old_c, old_crc, &old_crclen);
	}
	vfs_barrier();
	if (setjmp(vfs_crash_jb)) {
		crashes++;
		power |= vfs_crashed_power;
		vk_fault_mask = 0;
		vk_mem_live = 0;
		if (crashes <= S->nested && S->rfaults) {
			failing_check(S->rfaults);
			if (mc_choose(2, "crash after the check"))
				vfs_crash();
		} else if (S->rfaults) {
			vfs_crash_on = 0;
			failing_check(S->rfaults);
		} else if (crashes <= S->nested) {
			/* the recovery may itself be cut */
			r = futils_safew_file_check(P);
			mc_log("check = %d (complete)", r);
		}
		verdict(stage, crashes, power);
		return;
	}
	vfs_crash_on = S->crash;
	vk_fault_mask = S->faults ? VKM(VKF_FOPEN) | VKM(VKF_OPEN) |
		VKM(VKF_FWRITE) | VKM(VKF_FREAD) | VKM(VKF_FSYNC) |
		VKM(VKF_CLOSE) | VKM(VKF_RENAME) | VKM(VKF_UNLINK) |
		VKM(VKF_MALLOC) : 0;
	vk_fault_budget = S->faults;
	if (S->faults == 1)
		sw_errors();
	f = futils_safew_fopen(P);
	mc_log("open: %s", f ? "ok" : "failed");
	if (!f) {
		CHECK(vk_faults_done, "open failed for no reason");
	} else {
		bad = sw_write(f, &new_c, S->piece, S->np, S->how);
		if (S->end) {
			r = futils_safew_fclose_rollback(f);
			mc_log("rollback = %d", r);
			stage = 4;
			if (!vk_faults_done)
				CHECK(r == 0 && has_old(), "rollback: %d, "
				      "files:%s", r, vfs_list());
		} else {
			stage = 1;
			r = futils_safew_fclose_commit_with_crc(f);
			mc_log("commit = %d", r);
			stage = r == 0 ? 2 : 3;
			if (!vk_faults_done)
				CHECK(r == 0, "commit failed for no reason");
			if (bad)
				CHECK(r != 0, "commit succeeds after a failed "
				      "write");
			CHECK(r != 0 || !(vk_hard_sites & (VKM(VKF_FSYNC) |
				VKM(VKF_CLOSE))),
			      "commit succeeds although a sync or close "
			      "failed");
			if (r == 0) {
				CHECK(has_new(), "successful commit: not the "
				      "new pair:%s", vfs_list());
				CHECK(!vfs_get(P)->dirty && !vfs_get(P)->
				      poisoned, "successful commit: the "
				      "content is not synchronized");
				CHECK(!vfs_get(P ".crc")->dirty &&
				      !vfs_get(P ".crc")->poisoned,
				      "successful commit: the checksum is not "
				      "synchronized");
			}
		}
	}
	vk_fault_mask = 0;
	sw_clean();
	if (S->crash && mc_choose(2, "crash at the end"))
		vfs_crash();
	if (S->crash && S->nested) {
		/* a crash during a check of a healthy pair */
		r = futils_safew_file_check(P);
		mc_log("check = %d (complete)", r);
	}
	verdict(stage, 0, 0);
}

/* histories of several writes and checks, with a crash anywhere */
struct hist { int n, ops, crash; };
static struct content ver[6];
static uint8_t vcrc[6][64];
static size_t vlen[6];

static int version_now(void)
{
	int i;
	if (!vfs_get(P))
		return 0;
	for (i = 1; i < 6; i++)
		if (is_content(P, &ver[i]) && vfs_is(P ".crc", vcrc[i],
						     vlen[i]))
			return i;
	return -1;
}

static void history(void *arg)
{
	struct hist *h = arg;
	volatile int lo = 0, hi = 0;	/* versions it may be */
	volatile int i = 0, crashes = 0, power = 0, committing = 0;
	static const size_t pc[] = { WMAX };
	struct futils_safew_file *f;
	int r, v;
	for (v = 1; v < 6; v++) {
		sw_low = 0;
		sw_reset();
		content_make(&ver[v], v * 1500 % 4000, v);
		crc_of(&ver[v], vcrc[v], &vlen[v]);
	}
	sw_reset();
	if (setjmp(vfs_crash_jb)) {
		crashes++;
		power |= vfs_crashed_power;
		vk_mem_live = 0;
		if (committing)
			hi = committing;
		vfs_crash_on = crashes < 2 ? 2 : 0;
		r = futils_safew_file_check(P);
		v = version_now();
		mc_log("check = %d: version %d", r, v);
		CHECK(v == hi || (v >= 0 && v >= lo && v <= hi),
		      "after a crash: version %d, expected %d to %d:%s", v,
		      lo, hi, vfs_list());
		CHECK(r == (v ? 0 : -1), "check: %d of version %d", r, v);
		lo = hi = v;
		committing = 0;
		vfs_barrier();
		i++;
	}
	vfs_crash_on = h->crash && crashes < 2 ? 2 : 0;
	for (; i < h->n; i++) {
		int op = h->ops >> (2 * i) & 3;
		vfs_crash_on = h->crash && crashes < 2 ? 2 : 0;
		if (op == 3) {
			r = futils_safew_file_check(P);
			v = version_now();
			CHECK(v == hi && r == (v ? 0 : -1),
			      "check = %d, version %d, not %d", r, v, hi);
			continue;
		}
		v = i + 1;
		f = futils_safew_fopen(P);
		CHECK(f && !sw_write(f, &ver[v], pc, 1, 0), "write");
		if (op == 1) {
			CHECK(!futils_safew_fclose_rollback(f), "rollback");
			continue;
		}
		committing = v;
		CHECK(!futils_safew_fclose_commit_with_crc(f), "commit");
		committing = 0;
		CHECK(version_now() == v, "commit: not the new version");
		hi = v;
		if (!h->crash)
			lo = v;
	}
	vfs_crash_on = 0;
	r = futils_safew_file_check(P);
	v = version_now();
	CHECK(v == hi && r == (v ? 0 : -1), "at the end: check = %d, version "
	      "%d, not %d", r, v, hi);
	sw_clean();
	mc_outcome(v * 100 + crashes * 10 + power);
}

/* more versions than 16 bits count */
static void often(void *arg)
{
	struct futils_safew_file *f;
	uint32_t last = 0;
	int i, r;
	(void)arg;
	sw_low = 0;
	sw_reset();
	for (i = 0; i < 66000; i++) {
		uint32_t v = i;
		int e = i % 5;
		mc_n_cases++;
		f = futils_safew_fopen(P);
		CHECK(f && futils_safew_fwrite(&v, 1, 4, f) == 4, "write "
		      "number %d", i);
		if (e == 3 && i != 3) {
			CHECK(!futils_safew_fclose_rollback(f), "rollback %d",
			      i);
		} else {
			CHECK(!futils_safew_fclose_commit_with_crc(f),
			      "commit %d", i);
			last = v;
		}
		vfs_barrier();
		if (i > 60000 || i % 7 == 0) {
			r = futils_safew_file_check(P);
			CHECK(r == 0, "check after version %d: %d", i, r);
			vfs_barrier();
		}
		CHECK(vfs_is(P, &last, 4) && vfs_count() == 2, "version %d: "
		      "files%s", i, vfs_list());
		sw_clean();
	}
}

static struct scn *mk(struct scn s)
{
	static struct scn pool[30000];
	static int n;
	if (n == 30000)
		mc_broken("scenarios");
	pool[n] = s;
	return &pool[n++];
}

static void add(struct scn s)
{
	static char nm[120];
	sprintf(nm, "prev%d/%d:%zu,%zu,%zu/how%d/%s/crash%d/faults%d/nested%d/"
		"rfaults%d/zeros%d",
		s.prev, s.np, s.piece[0], s.piece[1], s.piece[2], s.how,
		s.end ? "rollback" : "commit", s.crash, s.faults, s.nested,
		s.rfaults, s.zeros);
	mc_explore(nm, run, mk(s));
}

int main(int argc, char **argv)
{
	static const int prev[] = { -1, 0, 10, 5000 };
	static const struct { int np; size_t p[3]; } w[] = {
		{ 0, { 0 } }, { 1, { 1 } }, { 1, { 4096 } }, { 1, { 8193 } },
		{ 2, { 10, 20 } }, { 2, { 4095, 2 } },
		{ 3, { 5, 5000, 5 } } };
	/* crash 2 levels; one fault; two faults; fault and crash; 3 levels */
	static const int cr[] = { 2, 0, 0, 2, 2, 0 };
	static const int fa[] = { 0, 1, 2, 1, 0, 3 };
	static const int ne[] = { 1, 0, 0, 0, 2, 0 };
	static const struct { int np; size_t p[2]; } big[] = {
		{ 1, { 65535 } }, { 1, { 65536 } }, { 1, { 65537 } },
		{ 1, { 131072 } }, { 2, { 65536, 1 } },
		{ 2, { 131071, 131073 } } };
	int p, i, h, e, m, n, o;
	mc_init(argc, argv);
	for (p = 0; p < 4; p++)
	for (i = 0; i < 7; i++)
	for (h = 0; h < 3; h += 2)
	for (e = 0; e < 2; e++)
	for (m = 0; m < 6; m++) {
		struct scn x = { prev[p], { w[i].p[0], w[i].p[1], w[i].p[2] },
			w[i].np, h, e, cr[m], fa[m], ne[m] };
		if (m == 5 && !mc_thorough && (p + i + h / 2) % 3)
			continue;
		add(x);
	}
	/* failures, or failures and crashes, in the recovery */
	for (p = 0; p < 4; p++)
	for (i = 0; i < 7; i++)
	for (m = 0; m < (mc_thorough ? 4 : 3); m++) {
		static const int ne2[] = { 0, 0, 1, 2 }, rf[] = { 1, 2, 1, 1 };
		struct scn x = { prev[p], { w[i].p[0], w[i].p[1], w[i].p[2] },
			w[i].np, 0, 0, 2, 0, ne2[m], rf[m] };
		add(x);
	}
	for (i = 0; i < (int)(sizeof(big) / sizeof(*big)); i++)
	for (h = 0; h < 3; h += 2)
	for (m = 0; m < 3; m++) {
		static const int bc[] = { 2, 0, 2 }, bf[] = { 0, 1, 0 },
			bn[] = { 0, 0, 1 };
		struct scn x = { 100, { big[i].p[0], big[i].p[1] },
			big[i].np, h, 0, bc[m], bf[m], bn[m] };
		add(x);
	}
	for (p = 1; p < 4; p++)
	for (i = 1; i < 3; i++)
	for (m = 0; m < 5; m++) {
		struct scn x = { prev[p], { prev[p] + i }, 1, 0, 0, cr[m],
			fa[m], ne[m], 0, i };
		add(x);
	}
	/* 0, 2: commit, 1: rollback, 3: check */
	for (n = 1; n <= (mc_thorough ? 4 : 3); n++)
		for (o = 0; o < 1 << (2 * n); o++) {
			static struct hist pool[2000];
			static int np;
			static char nm[40];
			int k, skip = 0;
			for (k = 0; k < n; k++)
				skip |= (o >> (2 * k) & 3) == 2;
			if (skip)
				continue;
			pool[np] = (struct hist){ n, o, 1 };
			sprintf(nm, "history/%d/%x", n, o);
			mc_explore(nm, history, &pool[np++]);
		}
	mc_sample("pair of 10 bytes; write 4095 + 2 bytes, commit with "
		  "checksum; power loss at every point, then again during the "
		  "check, then check");
	mc_explore("often", often, NULL);
	return mc_end();
}
