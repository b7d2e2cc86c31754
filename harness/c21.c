/* C21: size of a directory, over all small trees, with failures */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <futils/fs.h>

enum kind { REG, BIG, HUGE_, DIR_, LNKF, LNKD, LNKUP, LNKBAD, FIFO, SOCK, CHR,
	    BLK, NKIND };
static const char *kname[] = { "file", "file>2G", "file>4G", "dir", "link>file",
	"link>dir", "link>parent", "link>nothing", "fifo", "socket", "char",
	"block" };

static int outside, outdir;	/* what links point to: /out/file, /out */

/* each file has its own digit, so that the sum tells which were counted */
static int add(int parent, const char *name, int kind)
{
	static const unsigned mode[] = { S_IFREG, S_IFREG, S_IFREG, S_IFDIR,
		S_IFLNK, S_IFLNK, S_IFLNK, S_IFLNK, S_IFIFO, S_IFSOCK, S_IFCHR,
		S_IFBLK };
	int n = vk_tree_n;
	int64_t sz = 1ll << (n % 7 * 4);
	if (kind == BIG)
		sz += 0x7fffffff + (n & 1);
	else if (kind == HUGE_)
		sz += n & 1 ? 0xffffffffll : 5ll << 32;
	else if (kind != REG)
		sz += 0x3000;
	vk_node_add(parent, name, mode[kind], sz);
	vk_tree[n].target = kind == LNKF ? outside : kind == LNKD ? outdir :
		kind == LNKUP ? parent : -1;
	return n;
}

static void tree(void)
{
	vk_fd_limit = VK_FD_MAX;	/* a descriptor for each level is fine */
	vk_tree_n = 0;
	vk_node_add(0, "", S_IFDIR, 4096);
	outdir = vk_node_add(0, "out", S_IFDIR, 4096);
	outside = vk_node_add(outdir, "file", S_IFREG, 0x7777777);
}

static int64_t ref(int dir, int rec)
{
	int64_t s = 0;
	long k;
	int i;
	for (k = 0; k < vk_tree[dir].crowd; k++)
		if (vk_crowd_size(k) > 0)
			s += vk_crowd_size(k);
	for (i = 1; i < vk_tree_n; i++) {
		if (vk_tree[i].parent != dir)
			continue;
		if (S_ISREG(vk_tree[i].mode))
			s += vk_tree[i].size;
		else if (S_ISDIR(vk_tree[i].mode) && rec)
			s += ref(i, 1);
	}
	return s;
}

static int pathlen(int i)
{
	return i ? pathlen(vk_tree[i].parent) + 1 + strlen(vk_tree[i].name) : 0;
}

static const char *show(int dir)
{
	static char b[600];
	static int depth, o;
	int i, c = 0;
	if (!depth)
		o = 0;
	depth++;
	o += snprintf(b + o, 500 - o, "{");
	for (i = 1; i < vk_tree_n && o < 450; i++) {
		if (vk_tree[i].parent != dir)
			continue;
		o += snprintf(b + o, 500 - o, "%s%.20s:%o:%#llx", c++ ? ", " : "",
			      vk_tree[i].name, vk_tree[i].mode >> 12,
			      (long long)vk_tree[i].size);
		if (S_ISDIR(vk_tree[i].mode))
			show(i);
	}
	o += snprintf(b + o, 500 - o, "}");
	depth--;
	return b;
}

/* toolong: some path exceeds what the system accepts, error or exact sum */
static int64_t one(const char *path, int dir, int rec, int toolong)
{
	int64_t r, want = dir >= 0 ? ref(dir, rec) : -1;
	int done = vk_faults_done;
	uint64_t sites;
	mc_count_transitions(1);
	vk_fault_sites = vk_hard_sites = 0;
	errno = 0x55;
	r = futils_fs_dir_size(path, rec);
	sites = vk_fault_sites;
	CHECK(!vk_dirs_open, "%d directories are still open after %lld",
	      vk_dirs_open, (long long)r);
	CHECK(!vk_fd_open_count(), "a descriptor is still open");
	CHECK(!vk_mem_live, "%d blocks leaked", vk_mem_live);
	mc_n_nontrivial++;
	if (vk_faults_done > done) {
		CHECK((r < 0 && r > -4096) || ((!(sites & VKM(VKF_READDIR)) ||
				!vk_hard_sites) && r == want),
		      "the size of %s with failures is %lld%s (the whole is "
		      "%lld, recursive %d)", show(dir), (long long)r,
		      r < -4095 ? ", not an error" : "", (long long)want, rec);
		return r;
	}
	if (dir < 0) {
		CHECK(r < 0 && r > -4096, "the size of \"%.40s\" is %lld and "
		      "not an error", path ? path : "null", (long long)r);
		return r;
	}
	if (toolong && r < 0 && r > -4096)
		return r;
	CHECK(r == want, "the size of %s is %lld and not %lld (recursive %d, "
	      "dots %d, types %d, metadata %d, path %.30s)", show(dir),
	      (long long)r, (long long)want, rec, vk_tree_dots, vk_tree_dtype,
	      vk_tree_meta, path);
	return r;
}

static void all_ways(const char *path, int dir)
{
	for (vk_tree_dots = 0; vk_tree_dots < 3; vk_tree_dots++)
		for (vk_tree_dtype = 0; vk_tree_dtype < 2; vk_tree_dtype++) {
			one(path, dir, 0, 0);
			one(path, dir, 1, 0);
		}
	vk_tree_dots = 0;
	vk_tree_dtype = 1;
	for (vk_tree_meta = 1; vk_tree_meta < 5; vk_tree_meta++) {
		one(path, dir, 0, 0);
		one(path, dir, 1, 0);
	}
	vk_tree_dtype = vk_tree_meta = 0;
}

/* fill with n entries, each in one of the directories within 3 levels */
static void fill(int n, int dir, int nk, const int *kinds)
{
	int dirs[16], depth[16], nd = 1, i;
	dirs[0] = dir;
	depth[0] = 0;
	for (i = 0; i < n; i++) {
		char nm[4] = { 'a' + i, 0 };
		int p = mc_choose(nd, "in"), k = kinds[mc_choose(nk, "kind")];
		int x = add(dirs[p], nm, k);
		mc_log("%s %s in %d", kname[k], nm, p);
		if (k == DIR_ && depth[p] < 3) {
			dirs[nd] = x;
			depth[nd++] = depth[p] + 1;
		}
	}
}

static const int all_kinds[] = { REG, DIR_, BIG, HUGE_, LNKF, LNKD, LNKUP,
	LNKBAD, FIFO, SOCK, CHR, BLK };
static const int few[] = { REG, DIR_, HUGE_, LNKD };

static void s_trees(void *arg)
{
	int n = *(int *)arg, d, full = n < 5;
	tree();
	d = add(0, "d", DIR_);
	fill(n, d, full ? n == 4 && !mc_thorough ? 8 : NKIND : 4,
	     full ? all_kinds : few);
	mc_case(n, vk_tree_n, 0, 0);
	all_ways("/d", d);
	mc_outcome(ref(d, 1));
	mc_sample("tree %s", show(d));
}

static void all_errors(void)
{
	static const int stat_e[] = { EIO, EACCES, ENOENT, ELOOP, ENAMETOOLONG,
		EOVERFLOW, EINTR, EPERM, ENOTDIR, ESTALE, ENOMEM, EBADF,
		EINVAL, ENOSYS, 0 };
	static const int opendir_e[] = { EACCES, EMFILE, ENFILE, ENOENT,
		ENOMEM, ENOTDIR, EIO, ELOOP, EPERM, ESTALE, EINTR, EBUSY,
		EAGAIN, EINVAL, 0 };
	static const int readdir_e[] = { EIO, EBADF, EINVAL, EOVERFLOW, EINTR,
		ESTALE, EACCES, EPERM, ENOMEM, ENOTDIR, EAGAIN, 0 };
	vk_errs[VKF_STAT] = stat_e;
	vk_errs[VKF_OPENDIR] = vk_errs[VKF_OPEN] = opendir_e;
	vk_errs[VKF_READDIR] = readdir_e;
}

/* a failure of any call */
static void s_faults(void *arg)
{
	static const int kinds[] = { REG, DIR_, FIFO, LNKF };
	int n = *(int *)arg, d, rec;
	int64_t r;
	tree();
	d = add(0, "d", DIR_);
	fill(n, d, n > 3 ? 2 : 4, kinds);
	vk_tree_dots = mc_choose(3, "dots");
	vk_tree_dtype = mc_choose(2, "types");
	rec = mc_choose(2, "recursive");
	vk_fault_mask = VKM(VKF_OPENDIR) | VKM(VKF_READDIR) | VKM(VKF_STAT) |
		VKM(VKF_MALLOC) | VKM(VKF_OPEN);
	vk_fault_budget = mc_thorough || n < 3 ? 2 : 1;
	if ((n < 4 || mc_thorough) && mc_choose(2, "more errors")) {
		all_errors();
		vk_fault_budget = 1;
	}
	mc_case(n, rec, 0, 1);
	r = one("/d", d, rec, 0);
	mc_outcome(mc_mix(r, vk_faults_done));
	vk_fault_mask = 0;
	one("/d", d, rec, 0);
}

/* a chain of directories, with a file at each level, and a failure */
static void s_deep(void *arg)
{
	int n = *(int *)arg, d, i, p, rec;
	tree();
	p = d = add(0, "d", DIR_);
	for (i = 0; i < n; i++) {
		add(p, "f", i % 3);
		p = add(p, "s", DIR_);
		add(vk_tree[p].parent, "g", REG);
	}
	add(p, "h", REG);
	rec = 1;
	mc_case(n, 0, 0, 2);
	all_ways("/d", d);
	vk_fault_mask = VKM(VKF_OPENDIR) | VKM(VKF_READDIR) | VKM(VKF_STAT) |
		VKM(VKF_MALLOC) | VKM(VKF_OPEN);
	vk_fault_budget = 1;
	vk_tree_dtype = mc_choose(2, "types");
	one("/d", d, rec, 0);
	vk_fault_mask = 0;
	one("/d", d, rec, 0);
}

/* chains of directories up to the longest path */
static void s_chain(void *arg)
{
	static const int ns[] = { 64, 99, 100, 127, 128, 254, 255, 256, 500, 511,
		512, 999, 1000, 1020, 1023, 1024, 1025, 1999, 2000, 2042 };
	int n, d, i, p, v;
	for (i = 0; i < 20; i++)
		for (v = 0; v < 2; v++) {
			tree();
			p = d = add(0, "d", DIR_);
			for (n = 0; n < ns[i]; n++) {
				if (v && n % 3 == 0)
					add(p, "f", n % 3);
				p = add(p, "s", DIR_);
				if (!v && n % 3 == 0)
					add(vk_tree[p].parent, "g", REG);
			}
			add(p, "h", REG);
			mc_case(ns[i], v, 0, 8);
			vk_tree_dtype = v;
			one("/d", d, 1, 0);
			one("/d", d, 0, 0);
			vk_tree[p].mode = S_IFREG;
			vk_tree[p].size = 77;
			one("/d", d, 1, 0);
		}
	vk_tree_dtype = 0;
}

static void s_wide(void *arg)
{
	static const int ns[] = { 5, 16, 31, 32, 33, 64, 100, 127, 128, 129, 255,
		256, 257, 500 };
	int k, d, e, i, v;
	for (k = 0; k < 14; k++)
		for (v = 0; v < 3; v++) {
			tree();
			d = add(0, "d", DIR_);
			e = v == 1 ? add(d, "sub", DIR_) : d;
			for (i = 0; i < ns[k]; i++) {
				char nm[20];
				sprintf(nm, "n%d", i);
				add(e, nm, v == 2 && i % 7 == 3 ? DIR_ : i % 3);
				if (v == 2 && i % 7 == 4)
					vk_tree[vk_tree_n - 1].parent =
						vk_tree_n - 2;
			}
			mc_case(ns[k], v, 0, 3);
			all_ways("/d", d);
		}
}

/* very many entries in a directory */
static void s_crowd(void *arg)
{
	long n = *(long *)arg;
	int d, e, v;
	for (v = 0; v < 3; v++) {
		tree();
		d = add(0, "d", DIR_);
		add(d, "a", REG);
		e = v == 1 ? add(d, "sub", DIR_) : d;
		add(d, "z", HUGE_);
		vk_tree[e].crowd = n + v;
		mc_case(n, v, 0, 7);
		vk_tree_dots = v;
		vk_tree_dtype = v & 1;
		one("/d", d, v > 0, 0);
	}
	/* files of one size, whose partial sums pass 2^16, 2^31, 2^32 */
	for (v = 0; v < 8; v++) {
		static const int64_t same[] = { 1, 511, 512, 4095, 4096, 65535,
			0x7fffffff, 0xffffffff };
		tree();
		d = add(0, "d", DIR_);
		vk_tree[d].crowd = n + v;
		vk_crowd_same = same[v];
		mc_case(n, v, 1, 7);
		one("/d", d, v & 1, 0);
		vk_crowd_same = -1;
	}
	vk_tree_dots = vk_tree_dtype = 0;
}

static void s_names(void *arg)
{
	static const char *names[] = { "...", "..a", ".a", ".", "..", " ", "a.",
		"a..", ".. ", "....", "\xff", "%s%n", "~", "-", "*", "\n", ". ",
		"..." "............................................", "a b" };
	int i, k, d, s;
	for (i = 0; i < 19; i++)
		for (k = 0; k < NKIND; k++) {
			if (!strcmp(names[i], ".") || !strcmp(names[i], ".."))
				continue;
			tree();
			d = add(0, "d", DIR_);
			s = add(d, names[i], k);
			if (k == DIR_)
				add(s, names[(i + 5) % 19][0] == '.' ? ".x" :
				    names[(i + 5) % 19], REG);
			add(d, "z", REG);
			mc_case(i, k, 0, 4);
			all_ways("/d", d);
		}
	/* all the lengths of a name */
	for (i = 1; i <= 255; i++) {
		char nm[256];
		tree();
		d = add(0, "d", DIR_);
		memset(nm, 'n', i);
		nm[i] = 0;
		s = add(d, nm, i & 1 ? REG : DIR_);
		if (!(i & 1))
			add(s, nm, HUGE_);
		mc_case(i, 0, 0, 5);
		all_ways("/d", d);
	}
}

static void s_paths(void *arg)
{
	static const char *good[] = { "/d", "/d/", "/d//", "//d", "/l", "/l/",
		"d", "./d", "/d/.", "/d/s/..", "/l/s/../", "/out/../d" };
	static const char *bad[] = { "/f", "/f/", "/nothing", "", "/d/f", "/bad",
		"/lf", "/d/s/f", "/pipe", NULL };
	int d, s, i, l;
	tree();
	d = add(0, "d", DIR_);
	s = add(d, "s", DIR_);
	add(s, "x", HUGE_);
	add(d, "f", BIG);
	add(0, "f", REG);
	l = add(0, "l", LNKD);
	vk_tree[l].target = d;
	add(0, "lf", LNKF);
	add(0, "bad", LNKBAD);
	add(0, "pipe", FIFO);
	mc_case(0, 0, 0, 6);
	for (i = 0; i < 12; i++)
		all_ways(good[i], d);
	all_ways("/", 0);
	all_ways("/d/s", s);
	for (i = 0; i < 10; i++)
		all_ways(bad[i], -1);
}

/* paths up to and beyond the longest one, by a directory or a name */
static void s_limit(void *arg)
{
	int seg = *(int *)arg, len, kind, d, p, i;
	for (len = PATH_MAX - 10; len <= PATH_MAX + 10; len++)
		for (kind = 0; kind < 4; kind++) {
			char nm[256];
			int n, e;
			tree();
			p = d = add(0, "d", DIR_);
			add(d, "first", REG);
			memset(nm, 'n', 255);
			nm[seg] = 0;
			while (pathlen(p) + 1 + seg + 2 < len &&
			       vk_tree_n < VK_NODES - 10) {
				p = add(p, nm, DIR_);
			}
			n = len - pathlen(p) - 1;
			if (n < 1 || n > 255)
				continue;
			memset(nm, 'm', n);
			nm[n] = 0;
			e = add(p, nm, kind == 1 ? DIR_ : kind == 2 ? FIFO : REG);
			if (kind == 1)
				add(e, "x", REG);
			add(d, "last", REG);
			mc_case(seg, len, kind, 7);
			i = len + (kind == 1 ? 2 : 0) >= PATH_MAX;
			one("/d", d, 0, 0);
			one("/d", d, 1, i);
			if (kind == 3) {	/* the path itself is long */
				char *path = malloc(len + 20);
				int o = sprintf(path, "/d");
				while (o < len - 2)
					o += sprintf(path + o, "/.");
				if (o < len)
					o += sprintf(path + o, "/");
				while (o < len)
					path[o++] = '/';
				path[o] = 0;
				tree();
				d = add(0, "d", DIR_);
				add(d, "f", REG);
				e = add(d, "s", DIR_);
				add(e, "g", REG);
				vk_tree_dtype = 0;
				one(path, len < PATH_MAX ? d : -1, 0,
				    len + 2 >= PATH_MAX);
				one(path, len < PATH_MAX ? d : -1, 1,
				    len + 4 >= PATH_MAX);
				free(path);
			}
		}
}

int main(int argc, char **argv)
{
	static int ids[40];
	static const int segs[] = { 1, 7, 9, 50, 100, 128, 200, 250, 255 };
	char name[40];
	int i;
	mc_init(argc, argv);
	mc_set_reset(vk_reset);
	for (i = 0; i < 40; i++)
		ids[i] = i;
	for (i = 0; i <= (mc_thorough ? 6 : 5); i++) {
		snprintf(name, sizeof(name), "trees %d", i);
		mc_explore(name, s_trees, &ids[i]);
	}
	for (i = 0; i <= 4; i++) {
		snprintf(name, sizeof(name), "failures %d", i);
		mc_explore(name, s_faults, &ids[i]);
	}
	for (i = 0; i <= 24; i++) {
		snprintf(name, sizeof(name), "deep %d", i);
		mc_explore(name, s_deep, &ids[i]);
	}
	mc_explore("wide", s_wide, NULL);
	mc_explore("chain", s_chain, NULL);
	for (i = 0; i < (mc_thorough ? 6 : 5); i++) {
		static long cr[] = { 1023, 32767, 65535, 70000, 1050000,
			17000000 };
		snprintf(name, sizeof(name), "crowd %ld", cr[i]);
		mc_explore(name, s_crowd, &cr[i]);
	}
	mc_explore("names", s_names, NULL);
	mc_explore("paths", s_paths, NULL);
	for (i = 0; i < 9; i++) {
		snprintf(name, sizeof(name), "limit %d", segs[i]);
		mc_explore(name, s_limit, (void *)&segs[i]);
	}
	return mc_end();
}
