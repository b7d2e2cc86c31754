/* helpers for the safew drivers */
#ifndef SW_H
#define SW_H
#include "mc.h"
#include "vk.h"
#include "vfs.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <futils/safew.h>

#define P "/d/file"
#define WMAX 280000

struct content { uint8_t d[WMAX]; size_t n; };

static inline void content_make(struct content *c, size_t n, int tag)
{
	size_t i;
	c->n = n;
	for (i = 0; i < n; i++)
		c->d[i] = (uint8_t)(1 + (tag * 31 + i * 7 + (i >> 8) * 3) %
				    255);
}

static inline void content_copy(struct content *a, const struct content *b)
{
	memcpy(a->d, b->d, b->n);
	a->n = b->n;
}

static inline int is_content(const char *name, const struct content *c)
{
	return vfs_is(name, c->d, c->n);
}

static int sw_low;	/* descriptors are numbered from 0 */

static void sw_reset(void)
{
	vk_reset();
	vk_fd_base = sw_low ? 0 : 700;
	vfs_active = 1;
}

/* write pieces of c; returns 0 or -1 if a write reported an error.
 * how: 0 fwrite of bytes, 1 fwrite of one item, 2 fprintf, 3 mixed,
 * 4 fwrite of items of 3 bytes, then of the rest */
static int sw_write(struct futils_safew_file *f, const struct content *c,
		    const size_t *piece, int np, int how)
{
	size_t off = 0;
	int i, bad = 0;
	for (i = 0; i < np; i++) {
		size_t n = piece[i];
		int h = how == 3 ? i % 3 : how;
		if (n > c->n - off)
			n = c->n - off;
		if (!n && h == 1)
			h = 0;
		switch (h) {
		case 0:
			if (futils_safew_fwrite(c->d + off, 1, n, f) != n)
				bad = -1;
			break;
		case 4:
			if (futils_safew_fwrite(c->d + off, 3, n / 3, f) !=
			    n / 3)
				bad = -1;
			if (n % 3 && futils_safew_fwrite(c->d + off + n / 3 * 3,
					n % 3, 1, f) != 1)
				bad = -1;
			break;
		case 1:
			if (futils_safew_fwrite(c->d + off, n, 1, f) != 1)
				bad = -1;
			break;
		default:
			if (futils_safew_fprintf(f, "%.*s", (int)n,
						 (const char *)c->d + off) !=
			    (int)n)
				bad = -1;
		}
		off += n;
	}
	return bad;
}

/* every error these calls are known to fail with (and some more) */
static void sw_errors(void)
{
	static const int open_e[] = { ENOSPC, EACCES, EMFILE, ENOENT, EROFS,
		EINTR, EPERM, EBUSY, EIO, EEXIST, EAGAIN, ENOSYS, EINVAL, 0 };
	static const int write_e[] = { ENOSPC, EIO, EDQUOT, EFBIG, EPERM,
		EBADF, EINVAL, 0 };
	static const int sync_e[] = { EIO, ENOSPC, EDQUOT, EINVAL, EROFS,
		ENOSYS, ENOTSUP, EBADF, EINTR, EPERM, 0 };
	static const int close_e[] = { EIO, ENOSPC, EDQUOT, EINTR, EBADF, 0 };
	static const int rename_e[] = { EIO, EXDEV, EACCES, EBUSY, EEXIST,
		ENOENT, EPERM, EROFS, ENOSPC, ENOTEMPTY, EISDIR, EINVAL,
		ENOSYS, 0 };
	static const int unlink_e[] = { EIO, EACCES, EPERM, EBUSY, EROFS,
		ENOENT, 0 };
	vk_errs[VKF_FOPEN] = vk_errs[VKF_OPEN] = open_e;
	vk_errs[VKF_FWRITE] = write_e;
	vk_errs[VKF_FSYNC] = sync_e;
	vk_errs[VKF_CLOSE] = close_e;
	vk_errs[VKF_RENAME] = rename_e;
	vk_errs[VKF_UNLINK] = unlink_e;
}

/* file names: the k-th, NULL at the end */
static const char *sw_name(int k)
{
	static const char *const special[] = { "/d/%s", "/d/%n%n", "/d/%",
		"/d/a%d%s%n", "/d/%%", "/d/a.tmp", "/d/a.crc", "/d/a.crc.tmp",
		"/d/a.tmp.crc", "/d/.tmp", "/d/.crc", "/d/a.tmp.x", "/d/x.crc.y",
		"/d.tmp/a", "/d.crc/a", "/d.x/a.", "/d/..a", "/d/a b", "/d/~",
		"/d/a\\b", "/d/$HOME", "/d/*", "/d/\303\251", "a", "./a",
		"d/a", "../a", "d/../a", "//d//a", "/d/./a", "-", "--", "-a",
		"/d/.a", "/d/A", "/d/a.TMP", "/a", "|a", "/d/tmp", "/d/crc",
		"/d/a.tm", "/d/a.cr", "/d/0", "/d/a..tmp", "/d/\n", "/tmp/a",
		"/d/-.crc" };
	static char b[20];
	int n = sizeof(special) / sizeof(special[0]), c;
	if (k < n)
		return special[k];
	c = (k - n) / 3 + 1;
	if (c > 255)
		return NULL;
	if (c == '/')
		return "/d/e/f";
	sprintf(b, (k - n) % 3 == 0 ? "/d/a%cb" : (k - n) % 3 == 1 ? "/d/%cb" :
		"/d/a%c", c);
	if ((k - n) % 3 && c == '.')
		return "/d/.b.c";
	return b;
}

static void sw_clean(void)
{
	CHECK(vfs_open_count() == 0, "%d files left open", vfs_open_count());
	CHECK(vk_mem_live == 0, "memory leak");
}
#endif
