/* C07: the check decides every combination of the four files */
#include "sw.h"

/* contents: A, B, and small changes of A */
static struct content pool[8];
static int n_pool;
static struct { uint8_t d[64]; size_t n; } crc[8];
static size_t crclen;

static char fname[4][40] = { "/d/file", "/d/file.tmp", "/d/file.crc",
	"/d/file.crc.tmp" };
#define NAME_P fname[0]
#define NAME_T fname[1]
#define NAME_C fname[2]
#define NAME_CT fname[3]
static void set_name(const char *n)
{
	sprintf(NAME_P, "%s", n);
	sprintf(NAME_T, "%s.tmp", n);
	sprintf(NAME_C, "%s.crc", n);
	sprintf(NAME_CT, "%s.crc.tmp", n);
}

static void prepare(size_t len)
{
	static const size_t pc[] = { WMAX };
	int i;
	n_pool = 4;
	content_make(&pool[0], len, 1);
	content_make(&pool[1], len, 2);
	pool[1].d[0] = 0xff;	/* the value of EOF */
	pool[2].n = 0;
	/* the checksum may not see zeros at the start: the same as A's */
	pool[3].n = len + 1;
	pool[3].d[0] = 0;
	memcpy(pool[3].d + 1, pool[0].d, len);
	for (i = 0; i < n_pool; i++) {
		struct futils_safew_file *f;
		const struct vfs_inode *o;
		sw_reset();
		f = futils_safew_fopen(NAME_P);
		CHECK(f && !sw_write(f, &pool[i], pc, 1, 0) &&
		      !futils_safew_fclose_commit_with_crc(f), "commit");
		o = vfs_get(NAME_C);
		CHECK(o && o->curlen && o->curlen < 60, "checksum file");
		crc[i].n = crclen = o->curlen;
		memcpy(crc[i].d, o->cur, o->curlen);
	}
	CHECK(crc[0].n != crc[1].n || memcmp(crc[0].d, crc[1].d, crclen),
	      "two contents of %zu bytes have the same checksum", len);
	if (crc[3].n != crclen || memcmp(crc[0].d, crc[3].d, crclen))
		n_pool = 3;
}

/* checksum classes: 0 absent, 1..3 of a content, 4 garbage, 5.. short */
static int crc_for(int cls)
{
	return cls >= 1 && cls <= 3 ? cls - 1 : -1;
}

static void put_crc(const char *name, int cls)
{
	uint8_t g[64];
	if (!cls)
		return;
	if (crc_for(cls) >= 0)
		vfs_set(name, crc[cls - 1].d, crclen);
	else if (cls == 4) {
		memcpy(g, crc[0].d, crclen);
		g[crclen - 1] ^= 0x80;
		vfs_set(name, g, crclen);
	} else if (cls == 5) {
		memcpy(g, crc[0].d, crclen);
		g[0] ^= 1;
		vfs_set(name, g, crclen);
	} else
		vfs_set(name, crc[0].d, cls - 6 < (int)crclen ? cls - 6 : 0);
}

static int matches(int content, int cls)
{
	return crc_for(cls) >= 0 && !memcmp(crc[content].d, crc[cls - 1].d,
					    crclen);
}

/* the four files, and the payload which the documented table keeps */
static int setup(int p, int t, int c, int ct)
{
	/* does a pair match: same content as the one of the checksum */
	int p_c, p_ct, t_ct;
	sw_reset();
	if (p)
		vfs_set(NAME_P, pool[p - 1].d, pool[p - 1].n);
	if (t)
		vfs_set(NAME_T, pool[t - 1].d, pool[t - 1].n);
	put_crc(NAME_C, c);
	put_crc(NAME_CT, ct);
	p_c = p && matches(p - 1, c);
	p_ct = p && matches(p - 1, ct);
	t_ct = t && matches(t - 1, ct);
	/* the documented table */
	switch (!!p << 3 | !!t << 2 | !!c << 1 | !!ct) {
	case 8 + 2:
	case 8 + 4 + 2:
		return p_c ? p - 1 : -1;
	case 8 + 1:
		return p_ct ? p - 1 : -1;
	case 4 + 1:
	case 8 + 4 + 1:
	case 4 + 2 + 1:
		return t_ct ? t - 1 : -1;
	case 8 + 2 + 1:
		return p_c || p_ct ? p - 1 : -1;
	case 8 + 4 + 2 + 1:
		return t_ct ? t - 1 : p_c ? p - 1 : -1;
	}
	return -1;
}

static void one(int p, int t, int c, int ct)
{
	int keep = setup(p, t, c, ct), r, k;
	static const struct content *cp;
	mc_case(p, t, c, ct);
	mc_n_nontrivial++;
	for (k = 0; k < 3; k++) {
		r = futils_safew_file_check(NAME_P);
		mc_count_transitions(1);
		cp = keep < 0 ? NULL : &pool[keep];
		CHECK(r == (keep < 0 ? -1 : 0), "payload %d tmp %d crc %d "
		      "crc.tmp %d: check number %d = %d, files:%s", p, t, c,
		      ct, k + 1, r, vfs_list());
		if (keep < 0)
			CHECK(vfs_count() == 0, "payload %d tmp %d crc %d "
			      "crc.tmp %d: files left by check number %d:%s",
			      p, t, c, ct, k + 1, vfs_list());
		else
			CHECK(vfs_count() == 2 && is_content(NAME_P, cp) &&
			      vfs_is(NAME_C, crc[keep].d, crclen),
			      "payload %d tmp %d crc %d crc.tmp %d: wrong pair "
			      "after check number %d:%s", p, t, c, ct, k + 1,
			      vfs_list());
		sw_clean();
	}
	mc_outcome(mc_mix(keep + 1, !!p << 3 | !!t << 2 | !!c << 1 | !!ct));
}

static void product(void *arg)
{
	int p, t, c, ct;
	sw_low = (uintptr_t)arg & 1;
	prepare((size_t)(uintptr_t)arg);
	for (p = 0; p <= n_pool; p++)
		for (t = 0; t <= n_pool; t++)
			for (c = 0; c <= 9; c++)
				for (ct = 0; ct <= 9; ct++)
					one(p, t, c, ct);
}

/* failures of the system during the check: nothing is lost by them */
static void failures(void *arg)
{
	static const int cls[] = { 0, 1, 2, 4, 6, 8 };
	static const int open_e[] = { EMFILE, EACCES, ENOMEM, EIO, EINTR,
		ENFILE, 0 }, read_e[] = { EIO, ESTALE, 0 },
		rename_e[] = { EIO, ENOSPC, EACCES, EROFS, EPERM, 0 },
		few_open[] = { EMFILE, 0 }, few[] = { EIO, 0 };
	int budget = (uintptr_t)arg & 15, unl = (uintptr_t)arg >> 4 & 1;
	int p, t, c, ct, keep, r, n;
	sw_low = 0;
	prepare((uintptr_t)arg >> 8);
	p = mc_choose(n_pool + 1, "payload");
	t = mc_choose(n_pool + 1, "tmp");
	c = cls[mc_choose(6, "crc")];
	ct = cls[mc_choose(6, "crc.tmp")];
	keep = setup(p, t, c, ct);
	mc_case(p * 4 + t, c, ct, (uintptr_t)arg);
	vk_errs[VKF_FOPEN] = vk_errs[VKF_OPEN] = budget > 1 ? few_open : open_e;
	vk_errs[VKF_FREAD] = vk_errs[VKF_READ] = budget > 1 ? few : read_e;
	vk_errs[VKF_RENAME] = budget > 1 ? few : rename_e;
	vk_errs[VKF_FSYNC] = vk_errs[VKF_CLOSE] = vk_errs[VKF_UNLINK] = few;
	vk_fault_mask = VKM(VKF_FOPEN) | VKM(VKF_OPEN) | VKM(VKF_FREAD) |
		VKM(VKF_READ) | VKM(VKF_RENAME) | VKM(VKF_FSYNC) |
		VKM(VKF_CLOSE) | VKM(VKF_MALLOC) | (unl ? VKM(VKF_UNLINK) : 0);
	vk_fault_budget = budget;
	r = futils_safew_file_check(NAME_P);
	vk_fault_mask = 0;
	mc_count_transitions(1);
	mc_n_nontrivial++;
	mc_log("check = %d:%s", r, vfs_list());
	sw_clean();
	CHECK(r == 0 || r == -1, "payload %d tmp %d crc %d crc.tmp %d: check "
	      "with failures = %d", p, t, c, ct, r);
	CHECK(r != 0 || (keep >= 0 && is_content(NAME_P, &pool[keep]) &&
	      vfs_is(NAME_C, crc[keep].d, crclen)), "payload %d tmp %d crc %d "
	      "crc.tmp %d: check with failures = %d, files:%s", p, t, c, ct, r,
	      vfs_list());
	for (n = 0; n < 2; n++) {
		r = futils_safew_file_check(NAME_P);
		sw_clean();
		if (keep < 0 && (vk_fault_sites & VKM(VKF_UNLINK))) {
			/* files that could not be removed */
			CHECK(r == 0 ? vfs_get(NAME_P) && vfs_get(NAME_C) :
			      !vfs_count(), "check = %d:%s", r, vfs_list());
			break;
		}
		CHECK(keep < 0 ? r == -1 && !vfs_count() : r == 0 &&
		      vfs_count() == 2 && is_content(NAME_P, &pool[keep]) &&
		      vfs_is(NAME_C, crc[keep].d, crclen),
		      "payload %d tmp %d crc %d crc.tmp %d: after a check with "
		      "failures, the check = %d, files:%s", p, t, c, ct, r,
		      vfs_list());
	}
	mc_outcome(mc_mix(vk_fault_sites, keep + 1));
}

/* every small corruption of the payload or of the checksum is seen */
static void corrupt(void *arg)
{
	size_t len = (size_t)(uintptr_t)arg, i;
	static struct content x;
	int kind, where, b, r;
	sw_low = 0;
	prepare(len);
	/* where: pay/crc, pay/crc.tmp, tmp/crc.tmp, tmp over an old pair */
	for (where = 0; where < 4; where++)
	for (kind = 0; kind < 6; kind++)
	for (i = 0; i < (kind == 5 ? crclen * 8 : kind == 3 || kind == 4 ? 4 :
			 len); i++) {
		uint8_t cc[64];
		/* of a large file: around every page */
		if (len > 10000 && kind < 3 && i % 4096 > 1 &&
		    i % 4096 != 4095 && i + 2 < len)
			continue;
		memcpy(cc, crc[0].d, crclen);
		content_copy(&x, &pool[0]);
		switch (kind) {
		case 0:
			x.d[i] ^= 1;
			break;
		case 1:
			x.d[i] ^= 0x80;
			break;
		case 2:		/* cut */
			x.n = i;
			break;
		case 3:		/* longer */
			for (b = 0; b <= (int)i; b++)
				x.d[x.n++] = 'z';
			break;
		case 4:		/* longer, by zeros */
			for (b = 0; b <= (int)i; b++)
				x.d[x.n++] = 0;
			break;
		default:
			cc[i / 8] ^= 1 << i % 8;
		}
		mc_case(len, where, kind, i);
		mc_n_nontrivial++;
		sw_reset();
		vfs_set(where >= 2 ? NAME_T : NAME_P, x.d, x.n);
		vfs_set(where ? NAME_CT : NAME_C, cc, crclen);
		if (where == 3) {
			vfs_set(NAME_P, pool[1].d, pool[1].n);
			vfs_set(NAME_C, crc[1].d, crclen);
		}
		r = futils_safew_file_check(NAME_P);
		mc_count_transitions(1);
		if (where == 3)
			CHECK(r == 0 && vfs_count() == 2 && is_content(NAME_P,
			      &pool[1]) && vfs_is(NAME_C, crc[1].d, crclen),
			      "corruption %d at %zu of a newer pair: check = "
			      "%d, files:%s", kind, i, r, vfs_list());
		else
			CHECK(r == -1 && vfs_count() == 0, "corruption %d at "
			      "%zu accepted (%d):%s", kind, i, r, vfs_list());
		sw_clean();
	}
}

/* a checksum cut short is refused, also when the missing bytes are the ones
   that a cleared, or any other fixed, variable would supply */
static void cut_short(void *arg)
{
	static const int want[][2] = { { 1, 0 }, { 1, 0xff }, { 1, 0x55 },
		{ 2, 0 }, { 2, 0xff } };
	int (*w)[2] = (void *)&want[(uintptr_t)arg];
	static const size_t pc[] = { WMAX };
	static struct content x;
	uint8_t cc[64];
	int i, where, k, r, n = 0;
	sw_low = 0;
	prepare(40);
	memset(&x, 0, sizeof(x));
	x.n = 8;
	for (i = 0; i < 600000 && n < 2; i++) {
		struct futils_safew_file *f;
		const struct vfs_inode *o;
		memcpy(x.d, &i, sizeof(i));
		memcpy(x.d + 4, "cut!", 4);
		mc_n_cases++;
		sw_reset();
		f = futils_safew_fopen(NAME_P);
		CHECK(f && !sw_write(f, &x, pc, 1, 0) &&
		      !futils_safew_fclose_commit_with_crc(f), "commit");
		o = vfs_get(NAME_C);
		CHECK(o && o->curlen == crclen, "checksum file");
		memcpy(cc, o->cur, crclen);
		sw_clean();
		for (k = 0; k < (*w)[0]; k++)
			if (cc[crclen - 1 - k] != (*w)[1])
				break;
		if (k < (*w)[0])
			continue;
		n++;
		for (where = 0; where < 4; where++)
		for (k = 0; k < (int)crclen; k++) {
			mc_case(i, where, k, (*w)[1]);
			mc_n_nontrivial++;
			sw_reset();
			vfs_set(where >= 2 ? NAME_T : NAME_P, x.d, x.n);
			vfs_set(where ? NAME_CT : NAME_C, cc, k);
			if (where == 3) {
				vfs_set(NAME_P, pool[1].d, pool[1].n);
				vfs_set(NAME_C, crc[1].d, crclen);
			}
			r = futils_safew_file_check(NAME_P);
			mc_count_transitions(1);
			if (where == 3)
				CHECK(r == 0 && vfs_count() == 2 && is_content(
				      NAME_P, &pool[1]) && vfs_is(NAME_C,
				      crc[1].d, crclen), "%d bytes of checksum "
				      "of a newer pair: check = %d, files:%s",
				      k, r, vfs_list());
			else
				CHECK(r == -1 && vfs_count() == 0, "%d bytes of "
				      "checksum accepted (%d):%s", k, r,
				      vfs_list());
			sw_clean();
		}
	}
	mc_outcome(n);
}

/* every kind of name */
static void names(void *arg)
{
	const char *n;
	int k, m;
	(void)arg;
	sw_low = 0;
	prepare(40);
	for (k = 0; (n = sw_name(k)); k++) {
		set_name(n);
		for (m = 0; m < 81; m++)
			one(m % 3, m / 3 % 3, m / 9 % 3, m / 27);
	}
	set_name("/d/file");
}

/* one file's check leaves the others alone */
static void neighbours(void *arg)
{
	static const char *const nb[] = { "/d/filex", "/d/fil", "/d/file.crcx",
		"/d/file.tmpx", "/d/file.bak" };
	int m, i;
	(void)arg;
	sw_low = 0;
	prepare(40);
	for (m = 0; m < 16; m++) {
		sw_reset();
		for (i = 0; i < 5; i++)
			vfs_set(nb[i], pool[1].d, pool[1].n);
		if (m & 1)
			vfs_set(NAME_P, pool[0].d, pool[0].n);
		if (m & 2)
			vfs_set(NAME_T, pool[1].d, pool[1].n);
		if (m & 4)
			vfs_set(NAME_C, crc[0].d, crclen);
		if (m & 8)
			vfs_set(NAME_CT, crc[1].d, crclen);
		futils_safew_file_check(NAME_P);
		mc_case(m, 0, 0, 0);
		mc_n_nontrivial++;
		for (i = 0; i < 5; i++)
			CHECK(is_content(nb[i], &pool[1]), "combination %d: "
			      "%s changed", m, nb[i]);
		sw_clean();
	}
}

/* large payloads: a byte altered, or one missing, far from the beginning */
static void large(void *arg)
{
	size_t len = (size_t)(uintptr_t)arg, n, at;
	static uint8_t buf[1 << 20];
	uint8_t cc[64];
	struct futils_safew_file *f;
	const struct vfs_inode *o;
	int k, d, r, cut;
	memset(buf, VFS_FILLER, sizeof(buf));
	sw_low = 0;
	sw_reset();
	mc_patience = 40;
	vfs_huge = 1;
	f = futils_safew_fopen(NAME_P);
	CHECK(f, "open");
	for (n = 0; n < len; n += sizeof(buf)) {
		size_t w = len - n < sizeof(buf) ? len - n : sizeof(buf);
		CHECK(futils_safew_fwrite(buf, 1, w, f) == w, "write");
	}
	CHECK(!futils_safew_fclose_commit_with_crc(f), "commit of %zu bytes",
	      len);
	o = vfs_get(NAME_C);
	CHECK(o, "no checksum file");
	crclen = o->curlen;
	memcpy(cc, o->cur, crclen);
	r = futils_safew_file_check(NAME_P);
	o = vfs_get(NAME_P);
	CHECK(r == 0 && vfs_count() == 2 && o && o->curlen == len &&
	      vfs_is(NAME_C, cc, crclen), "a pair of %zu bytes: check = %d, "
	      "files:%s", len, r, vfs_list());
	for (k = 19; k < 34; k++)
	for (d = -1; d <= 1; d++)
	for (cut = 0; cut < 2; cut++) {
		at = (1ull << k) + d;
		if (at >= len) {
			if (at / 2 >= len || d || (cut && k > 20))
				continue;
			at = len - 1;
		} else if ((d || cut) && len > 1 << 22) {
			continue;
		}
		mc_case(len, at, cut, 0);
		mc_n_nontrivial++;
		sw_reset();
		vfs_huge = 1;
		vfs_set(NAME_P, buf, VFS_DATA_MAX);
		vfs_set(NAME_C, cc, crclen);
		((struct vfs_inode *)vfs_get(NAME_P))->curlen = cut ? at : len;
		if (!cut)
			vfs_huge_alt = at;
		r = futils_safew_file_check(NAME_P);
		mc_count_transitions(1);
		CHECK(r == -1 && vfs_count() == 0, "%zu bytes, %s at %zu: "
		      "accepted (%d):%s", len, cut ? "cut" : "altered", at, r,
		      vfs_list());
		sw_clean();
	}
	mc_patience = 4;
}

int main(int argc, char **argv)
{
	static const int len[] = { 1, 2, 3, 4, 5, 7, 8, 40, 4095, 4096, 4097,
		8192, 8193, 12000,
		65535, 65536, 65537, 70000, 131072, 262144 };
	int i;
	mc_init(argc, argv);
	for (i = 0; i < (int)(sizeof(len) / sizeof(*len)); i++) {
		static char nm[40];
		sprintf(nm, "product/%d", len[i]);
		mc_explore(nm, product, (void *)(uintptr_t)len[i]);
	}
	for (i = 1; i < (mc_thorough ? 300 : 70); i++) {
		static char nm[40];
		sprintf(nm, "corrupt/%d", i);
		mc_explore(nm, corrupt, (void *)(uintptr_t)i);
	}
	mc_explore("corrupt/4097", corrupt, (void *)4097);
	mc_explore("corrupt/65537", corrupt, (void *)65537);
	mc_explore("corrupt/70000", corrupt, (void *)70000);
	mc_explore("corrupt/135000", corrupt, (void *)135000);
	if (mc_thorough)
		mc_explore("corrupt/270000", corrupt, (void *)270000);
	mc_explore("large/20", large, (void *)((1 << 20) + 5));
	mc_explore("large/22", large, (void *)(1 << 22));
	mc_explore("large/24", large, (void *)((1 << 24) + 1));
	mc_explore("large/26", large, (void *)((1 << 26) + 3));
	if (mc_thorough) {
		mc_explore("large/31", large, (void *)((1ull << 31) + 9));
		mc_explore("large/32", large, (void *)((1ull << 32) + 5));
	}
	for (i = 0; i < 5; i++) {
		static char nm[40];
		sprintf(nm, "short/%d", i);
		mc_explore(nm, cut_short, (void *)(uintptr_t)i);
	}
	mc_explore("failures/40/1", failures, (void *)(40 << 8 | 1));
	mc_explore("failures/40/2", failures, (void *)(40 << 8 | 2));
	mc_explore("failures/5000/1", failures, (void *)(5000 << 8 | 1));
	mc_explore("failures/5000/unlink/1", failures,
		   (void *)(5000 << 8 | 16 | 1));
	mc_explore("failures/40/unlink/2", failures,
		   (void *)(40 << 8 | 16 | 2));
	if (mc_thorough) {
		mc_explore("failures/40/3", failures, (void *)(40 << 8 | 3));
		mc_explore("failures/5000/unlink/3", failures,
			   (void *)(5000 << 8 | 16 | 3));
	}
	mc_explore("neighbours", neighbours, NULL);
	mc_explore("names", names, NULL);
	mc_sample("payload A, tmp B, crc(A), crc.tmp = 3 bytes: the pair A is "
		  "kept, 3 checks in a row agree");
	return mc_end();
}
