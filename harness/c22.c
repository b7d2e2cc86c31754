/* C22: synchronization of files and folders, over paths and failures */
#define _GNU_SOURCE
#include "mc.h"
#include "vk.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <futils/synctools.h>

/* every directory has a file f, a directory d and a link l to another
 * directory; lf is a link to a file elsewhere */
static int synced[VK_NODES], failed[VK_NODES], order[8], norder, cwd;

static void dir(int p, int depth)
{
	int d, l;
	vk_node_add(p, "f", S_IFREG, 5);
	l = vk_node_add(p, "l", S_IFLNK, 0);
	vk_tree[l].target = 0;
	if (!depth)
		return;
	d = vk_node_add(p, "d", S_IFDIR, 4096);
	vk_tree[l].target = d;
	dir(d, depth - 1);
}

static void tree(void)
{
	int l;
	vk_tree_n = 0;
	vk_node_add(0, "", S_IFDIR, 4096);
	dir(0, 4);
	cwd = vk_node_add(0, "w", S_IFDIR, 4096);
	dir(cwd, 3);
	l = vk_node_add(0, "lf", S_IFLNK, 0);
	vk_tree[l].target = vk_node_find("/w/d/f", 1);
	vk_tree_cwd = cwd;
	memset(synced, 0, sizeof(synced));
	memset(failed, 0, sizeof(failed));
	norder = 0;
	vk_open_flags = 0;
}

static const int ferr[] = { EIO, ENOSPC, EROFS, EINVAL, EDQUOT, EPERM, ENOSYS,
	EOPNOTSUPP, EBADF, EAGAIN, EINTR, 0 };
static int on_fsync(int fd, int data_only)
{
	struct vk_fd *f = vk_fd_get(fd);
	int e;
	if (f->flags & O_PATH) {
		errno = EBADF;
		return -1;
	}
	e = vk_inject(VKF_FSYNC, "fsync", ferr);
	if (norder < 8)
		order[norder++] = f->pos;
	if (e) {
		failed[f->pos]++;
		errno = e;
		return -1;
	}
	if (!data_only)
		synced[f->pos]++;
	return 0;
}

enum { FILE_, FOLDER, BOTH };
static const char *fname[] = { "sync_file", "sync_folder",
	"sync_file_and_folder" };

static char *sized(const char *s)
{
	static char *bufs[16];
	size_t n = strlen(s);
	char *p = n < 16 ? bufs[n] : NULL;
	if (!p)
		p = malloc(n + 1);
	if (n < 16)
		bufs[n] = p;
	return memcpy(p, s, n + 1);
}

static void one(int fn, const char *path)
{
	size_t n = strlen(path);
	char *p = sized(path), *parent = NULL, *slash;
	int r, node = vk_node_find(path, 1), pn = -1, named, done, sites;
	slash = strrchr(path, '/');
	/* ends with the name of something in a folder */
	named = n && strcmp(slash ? slash + 1 : path, ".") &&
		strcmp(slash ? slash + 1 : path, "..") && (!slash || slash[1]);
	if (named) {
		parent = strdup(path);
		if (slash)
			parent[slash - path + 1] = 0;
		else
			strcpy(parent, ".");
		pn = vk_node_find(parent, 1);
		free(parent);
	}
	vk_fsync_hook = on_fsync;
	vk_fault_sites = 0;
	done = vk_faults_done;
	vk_first_fault_errno = 0;
	mc_count_transitions(1);
	r = fn == FILE_ ? sync_file(p) : fn == FOLDER ? sync_folder(p) :
		sync_file_and_folder(p);
	sites = vk_fault_sites;
	mc_n_nontrivial++;
	CHECK(!strcmp(p, path), "%s(\"%s\") changed the path to \"%s\"",
	      fname[fn], path, p);
	CHECK(!vk_fd_open_count(), "%s(\"%s\") leaves a descriptor open",
	      fname[fn], path);
	CHECK(!vk_mem_live, "%s(\"%s\") leaks", fname[fn], path);
	CHECK(!(vk_open_flags & (O_TRUNC | O_CREAT)), "%s(\"%s\") opens with "
	      "the flags %#x, which change the file", fname[fn], path,
	      vk_open_flags);
	CHECK(r == 0 || (r < 0 && r > -4096), "%s(\"%s\") returns %d",
	      fname[fn], path, r);
	if (r == 0) {
		CHECK(node >= 0 && synced[node], "%s(\"%s\") succeeds and the "
		      "%s was not synchronized", fname[fn], path,
		      fn == FOLDER ? "folder" : "file");
		CHECK(fn != FOLDER || S_ISDIR(vk_tree[node].mode), "sync_folder("
		      "\"%s\") succeeds and it is no folder", path);
		CHECK(fn != BOTH || !named || (pn >= 0 && synced[pn]),
		      "sync_file_and_folder(\"%s\") succeeds and the folder "
		      "was not synchronized", path);
		/* what a signal interrupted may be done again: the above still
		 * holds */
		CHECK(vk_first_fault_errno == EINTR ||
		      !(sites & (VKM(VKF_OPEN) | VKM(VKF_FSYNC))),
		      "%s(\"%s\") succeeds in spite of a failure", fname[fn],
		      path);
		goto out;
	}
	if (vk_faults_done > done) {
		int first = VKM(vk_first_fault_site);
		if ((sites & VKM(VKF_MALLOC)) ||
		    (first & VKM(VKF_CLOSE))) {
			/* when it is allocated is free, close may be ignored */
			CHECK(sites != VKM(VKF_MALLOC) || r == -ENOMEM ||
			      node < 0 || (fn == BOTH && !slash),
			      "%s(\"%s\") returns %d after a shortage of "
			      "memory", fname[fn], path, r);
		} else if (node >= 0) {
			CHECK(r == -vk_first_fault_errno ||
			      vk_first_fault_errno == EINTR ||
			      (fn == BOTH && !slash && r == -EINVAL), "%s(\"%s\") returns %d "
			      "and the first failure was %d", fname[fn], path,
			      r, -vk_first_fault_errno);
		}
		goto out;
	}
	if (node < 0) {
		CHECK(r == node || (fn == BOTH && !slash && r == -EINVAL), "%s(\"%s\") returns %d and not %d", fname[fn],
		      path, r, node);
		goto out;
	}
	if (fn == FOLDER && !S_ISDIR(vk_tree[node].mode)) {
		CHECK(r == -ENOTDIR, "sync_folder of the file \"%s\" returns %d",
		      path, r);
		goto out;
	}
	if (fn == FILE_ && S_ISDIR(vk_tree[node].mode))
		goto out;	/* may refuse a folder */
	if (fn == BOTH && (!slash || !named || S_ISDIR(vk_tree[node].mode)))
		goto out;	/* may refuse a bare name or a folder */
	mc_fail("%s(\"%s\") returns %d and nothing failed", fname[fn], path, r);
out:
	if (n >= 16)
		free(p);
}

static void s_paths(void *arg)
{
	static const char abc[] = "/.fdl";
	int len = *(int *)arg, ix[12] = { 0 }, i, fn;
	char p[12];
	for (;;) {
		for (i = 0; i < len; i++)
			p[i] = abc[ix[i]];
		p[len] = 0;
		for (fn = 0; fn < 3; fn++) {
			tree();
			mc_case(len, fn, *(uint64_t *)p, 0);
			one(fn, p);
		}
		for (i = len - 1; i >= 0 && ++ix[i] == 5; i--)
			ix[i] = 0;
		if (i < 0)
			break;
	}
	mc_sample("paths of %d characters over / . f d l", len);
}

static const char *const forms[] = { "/f", "/d/f", "f", "d/f", "./f", "../f",
	"/d//f", "//f", "/w/d/../f", "/lf", "/l/f", "/d/d/d/d/f", "/d", "/d/",
	"/none", "/d/none", "/none/f", "/f/f", ".", "/", "/w/../lf" };
static const int oerr[] = { EACCES, EMFILE, ENOENT, EPERM, ENFILE, ELOOP,
	ENOMEM, EINVAL, EROFS, ENOTDIR, EISDIR, ETXTBSY, EIO, EINTR, 0 };

static void s_faults(void *arg)
{
	int fn = *(int *)arg, k = mc_choose(21, "path");
	/* the lowest descriptors are free, or not */
	vk_fd_base = mc_choose(2, "descriptors") ? 0 : 700;
	tree();
	vk_errs[VKF_OPEN] = oerr;
	vk_fault_mask = VKM(VKF_OPEN) | VKM(VKF_FSYNC) | VKM(VKF_CLOSE) |
		VKM(VKF_MALLOC);
	vk_fault_budget = mc_thorough ? 6 : 5;
	mc_case(fn, k, 0, 1);
	one(fn, forms[k]);
	mc_outcome(vk_faults_done * 3 + fn);
	/* failures leave nothing behind */
	vk_fault_mask = 0;
	tree();
	one(fn, forms[k]);
}

static void s_long(void *arg)
{
	int len, fn, k, i;
	static const int ls[] = { 31, 32, 63, 64, 127, 128, 254, 255, 256, 257,
		258, 511, 512, 1023, 1024, 2048, 4090, 4094, 4095, 4096, 4097,
		5000 };
	for (i = 0; i < 22; i++)
		for (k = 0; k < 6; k++)
			for (fn = 0; fn < 3; fn++) {
				char *p = malloc(6000), name[300];
				int o, p0, end, at;
				len = ls[i];
				tree();
				mc_case(len, k, fn, 2);
				if (k < 3) {	/* many . or / and then a name */
					static const char *ends[] = { "/f",
						"/d/f", "/d" };
					end = strlen(ends[k]);
					for (o = 0; o + end < len; o++)
						p[o] = len % 2 ? '/' :
							o % 2 ? '.' : '/';
					if (o && p[o - 1] == '/' && len % 2 == 0)
						p[o - 1] = '/';
					strcpy(p + o, ends[k]);
					one(fn, p);
					free(p);
					continue;
				}
				/* long names */
				p0 = k == 3 ? 0 : cwd;
				at = sprintf(p, k == 3 ? "" : k == 4 ? "/w" : ".");
				while (at + 1 < len) {
					int n = len - at - 1;
					if (n > 255)
						n = n - 255 == 1 ? 253 : 255;
					memset(name, 'n', n);
					name[n] = 0;
					if (k == 5 && at + 1 + n < len)
						name[n - 1] = '.';
					p0 = vk_node_add(p0, name, at + 1 + n <
							 len ? S_IFDIR : S_IFREG,
							 4);
					at += sprintf(p + at, "/%s", name);
				}
				one(fn, p);
				free(p);
			}
}

static void s_null(void *arg)
{
	int r;
	tree();
	mc_case(0, 0, 0, 3);
	mc_n_nontrivial++;
	CHECK((r = sync_file(NULL)) < 0, "sync_file(NULL) returns %d", r);
	CHECK((r = sync_folder(NULL)) < 0, "sync_folder(NULL) returns %d", r);
	CHECK((r = sync_file_and_folder(NULL)) < 0,
	      "sync_file_and_folder(NULL) returns %d", r);
	CHECK(!vk_mem_live && !vk_fd_open_count(), "a refused call leaks");
}

int main(int argc, char **argv)
{
	static int ids[16];
	char name[40];
	int i;
	mc_init(argc, argv);
	mc_set_reset(vk_reset);
	for (i = 0; i < 16; i++)
		ids[i] = i;
	for (i = 0; i <= (mc_thorough ? 8 : 7); i++) {
		snprintf(name, sizeof(name), "paths %d", i);
		mc_explore(name, s_paths, &ids[i]);
	}
	for (i = 0; i < 3; i++) {
		snprintf(name, sizeof(name), "failures %s", fname[i]);
		mc_explore(name, s_faults, &ids[i]);
	}
	mc_explore("long", s_long, NULL);
	mc_explore("null", s_null, NULL);
	return mc_end();
}
