From 2daf21c4c1ca80452bb5f38e2f19a6e6c8ec509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 01/26] fix: varint: check the bounds before reading, and the
 right overflow byte

A truncated varint made the decoder read past the end of the source; a varint
of maximum length was refused or accepted depending on the byte which follows
it, and the bits of its last byte which do not fit were silently dropped.
---
 src/varint.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..64e5a27 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -52,6 +52,8 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 		uint64_t *val, size_t *val_len, size_t val_len_max)
 {
 	uint32_t shift = 0;
+	/* Value size in bits: 16, 32 or 64 for 3, 5 or 10 bytes at most */
+	const uint32_t val_bits = (uint32_t)(val_len_max * 7 / 8 * 8);
 	size_t offset = 0;
 	int more = 0;
 
@@ -61,15 +63,18 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
+		/* Truncated, too long, or last byte overflowing the value */
+		if ((offset >= src_len) ||
+		    (offset >= val_len_max) ||
+		    (offset == val_len_max - 1 &&
+		     ((src[offset] & 0x7f) >> (val_bits - shift)) != 0))
+			return -EPROTO;
+
 		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
 		more = src[offset] & 0x80;
 
 		offset++;
 		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
-			return -EPROTO;
 	} while (more);
 
 	*val_len = offset;
-- 
2.43.0


From 1aba08af01e04dba89d60d88d5626c8a6fd7b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 02/26] fix: timetools: normalized difference of timespecs with
 equal nsec

time_timespec_diff() returned {sec - 1, 1000000000} (so {-1, 1000000000} for
two equal times) when both times have the same tv_nsec.
---
 src/timetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..3b16731 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
-- 
2.43.0


From 3210fd0650adf64a7cce33c3e831951b130d79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 03/26] fix: timetools: time_timespec_diff_in_range: set the
 diff of equal times

out_diff_us was left uninitialized when both times are equal.
---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 3b16731..757e73b 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From 5a29fc87c7b89ab21411a2dccbeecaadd1a609f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 04/26] fix: dynmbox: notify with the lock held

When the consumer read the message between the unlock and the write in the
pipe, the byte of the message was left in the pipe: the file descriptor then
stayed readable for ever with an empty mailbox.
---
 src/dynmbox.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..90f6d39 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -510,11 +510,12 @@ int dynmbox_push(struct dynmbox *box,
 	if (res)
 		goto fail;
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Write one byte into pipe/socket to signal mbox is readable */
+	/* Write one byte into pipe/socket to signal mbox is readable; the lock
+	 * is kept so that the message can't be read before its byte */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -578,11 +579,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Signal consumers */
+	/* Signal consumers, with the lock kept as in dynmbox_push() */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
-- 
2.43.0


From af4515ac6669550004b065ccc89689f5f9d888e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 05/26] fix: dynmbox: dynmbox_push_block: 32-bit overflow of
 the timeout

A timeout over 4294967 ms expired too early.
---
 src/dynmbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 90f6d39..77470e3 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -558,7 +558,8 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				     &ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From de25468da5f48d364f8c09f4c1d0317230cd39d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 06/26] fix: dynmbox: set CLOEXEC on the write end of the pipe
 too

---
 src/dynmbox.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 77470e3..e18d1f9 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -256,10 +256,11 @@ static int init_notify_channel(struct dynmbox *box)
 	if (ret < 0)
 		return -errno;
 
-	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	/* set pipes non blocking and CLOEXEC flag */
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From a2c9813e220082e27b3bb6e49c768b0c402cc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 07/26] fix: mbox: mbox_push_block: wait again if another
 producer took the room

With several producers, the room seen by poll() may have been taken when the
write is done: the function returned -EAGAIN whereas it shall block.
---
 src/mbox.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mbox.c b/src/mbox.c
index 4f709cc..3d75c19 100644
--- a/src/mbox.c
+++ b/src/mbox.c
@@ -128,6 +128,7 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 		return -EINVAL;
 	timeout = (timeout_ms == 0) ? -1 : (int)timeout_ms;
 
+again:
 	/* Block until we have at least PIPE_BUF bytes in the pipe */
 	do {
 		struct pollfd pfd = {
@@ -148,7 +149,13 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 	 * error occured on the file descriptor, in which case the write is
 	 * expected to fail.
 	 */
-	return mbox_push(box, msg);
+	res = mbox_push(box, msg);
+
+	/* Another producer took the room in the meantime: wait again */
+	if (res == -EAGAIN)
+		goto again;
+
+	return res;
 }
 
 int mbox_peek(struct mbox *box, void *msg)
-- 
2.43.0


From e899a7f892f8c83c15126060b48af7548a654f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 08/26] fix: safew: file_check: rename the payload before its
 crc

The crc was renamed first: after a crash between the two renames, no payload
matches a crc any more and the next check erased both versions of the file.
---
 src/safew.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..3f88632 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -513,11 +513,12 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload and tmp crc; in this order, so that the
+		 * state in between is a stage 3 or a stage 8 */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -531,11 +532,12 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload and tmp crc (in this order, so
+			 * that the state in between is a stage 8) */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From 70924f4c41157567028aee6cae2f19b2be7f6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 09/26] fix: safew: file_check: do not erase a valid pair if
 the other crc is short

A crash while the tmp crc file is created leaves it empty: the check stopped
there and erased the previous payload and crc, which match.
---
 src/safew.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 3f88632..aa5e60f 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -469,13 +469,11 @@ int futils_safew_file_check(const char *pathname)
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
 		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
 
 		crc_from_fhd(payload_fhd, &payload_crc);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		if (ret == 0 && crc == payload_crc)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -524,14 +522,13 @@ int futils_safew_file_check(const char *pathname)
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
 		/* stage 7: payload/crc and tmp_payload/tmp_crc pairs should be
 		 * both valid.
-		 * Check tmp pair first, if it fails test the other one
+		 * Check tmp pair first, if it fails (or if tmp crc is not
+		 * completely written) test the other one
 		 */
 		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
-		if (tmp_crc == tmp_payload_crc) {
+		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload and tmp crc (in this order, so
 			 * that the state in between is a stage 8) */
 			ret = rename(fp.tmp_path, pathname);
-- 
2.43.0


From a2079f7586dfb0eb0a46a704d562562d4e738b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 10/26] fix: safew: keep the crc of the previous file if the
 commit fails

A failed commit removed the crc of the previous payload, so the next check
erased this payload. When only the last rename fails, it removed both crcs,
so the next check erased the new payload.
---
 src/safew.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index aa5e60f..a4bd906 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -230,6 +230,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 			       bool with_crc)
 {
 	int ret = 0;
+	bool moved = false;
 	struct futils_safew_crc crc_fp = { {}, {} };
 
 	if (safew_fp == NULL)
@@ -273,6 +274,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 	if (ret == 0)
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
+	moved = ret == 0;
 
 	if (ret == 0 && with_crc)
 		/* move tmp payload to payload */
@@ -282,10 +284,10 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
 		unlink(safew_fp->tmp_path);
 
-		if (with_crc) {
-			unlink(crc_fp.path);
+		/* crc is the one of the previous payload, and once the payload
+		 * is moved its only crc is the tmp one */
+		if (with_crc && !moved)
 			unlink(crc_fp.tmp_path);
-		}
 	}
 
 	free(safew_fp);
-- 
2.43.0


From bb7d676bbbca9a36342df77a6e2626483064ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 11/26] fix: safew: fail the commit if the payload can't be
 read back for its crc

The crc of what was read before the error was written, so the commit reported
a success but the next check erased the file.
---
 src/safew.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a4bd906..e18f26e 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -74,10 +74,11 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 	}
 
 	crc_from_fhd(fhd, crc);
+	if (ferror(fhd))
+		ret = -1;
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
-	ret = fclose(fhd);
-	if (ret < 0)
+	if (fclose(fhd) < 0)
 		return -1;
 
 	return ret;
-- 
2.43.0


From f70e7ff9cf2564e5b4744ca3a0f987449e331f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 12/26] fix: fs: futils_fs_dir_size: report readdir errors

An error was taken for the end of the directory, and the size of the entries
before it was returned as the size of the directory.
---
 src/fs.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..0cf6af5 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -67,7 +67,7 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	while (errno = 0, (entry = readdir(dir)) != NULL) {
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
@@ -96,6 +96,12 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 		}
 	}
 
+	/* readdir returns NULL for an error too */
+	if (errno != 0) {
+		ret = -errno;
+		ULOG_ERRNO("can't readdir '%s'", -ret, path);
+	}
+
 clean:
 	free(filepath);
 	if (dir)
-- 
2.43.0


From e9aff3f8dd34a11adda349974664acd97fbb9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 13/26] fix: synctools: sync_file_and_folder: report the
 failure of the file

The error of the file was overwritten by the success of the folder; a NULL
path was given to strdup().
---
 src/synctools.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..fc8b384 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -88,14 +88,18 @@ int sync_folder(const char *folderpath)
 int sync_file_and_folder(const char *filepath)
 {
 	int ret;
+	int file_ret;
 	char *slash;
 	char *folderpath;
 
+	if (!filepath)
+		return -EINVAL;
+
 	/* sync file */
-	ret = sync_file(filepath);
-	if (ret < 0)
-		ULOGW("sync_file(%s) failed : %d(%s)", filepath, ret,
-				strerror(-ret));
+	file_ret = sync_file(filepath);
+	if (file_ret < 0)
+		ULOGW("sync_file(%s) failed : %d(%s)", filepath, file_ret,
+				strerror(-file_ret));
 
 	/* determine parent folder */
 	folderpath = strdup(filepath);
@@ -120,5 +124,7 @@ int sync_file_and_folder(const char *filepath)
 
 out:
 	free(folderpath);
-	return ret;
+
+	/* First report the failure of the file */
+	return file_ret < 0 ? file_ret : ret;
 }
-- 
2.43.0


From 138816646f31c585d24b1bcefd7c45360e8aa011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 14/26] fix: fs: futils_fs_dir_size: report the paths which are
 too long

The truncated path may be the one of another file, which was counted twice.
---
 src/fs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index 0cf6af5..6fd3753 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -73,7 +73,12 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		if (snprintf(filepath, FILENAME_MAX, "%s/%s", path,
+			     entry->d_name) >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			ULOG_ERRNO("path of '%s'", -ret, entry->d_name);
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From a29807e6f40bd6f7ad9b16ed3acc2a66321b0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 15/26] fix: systimetools: refuse the months which are out of
 range

The month is an index in a table, which was read out of its bounds for strings
such as "2018-99-01T00:00:00Z", and for a tm_mon not between 0 and 11.
---
 src/systimetools.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..8787499 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -166,6 +166,10 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	if (ret < 0)
 		return ret;
 
+	/* The month is used as an index */
+	if (*mon < 1 || *mon > 12)
+		return -EINVAL;
+
 	return ret;
 }
 
@@ -716,6 +720,10 @@ int time_local_from_tm(const struct tm *tm, uint64_t *epoch_sec,
 	if (!epoch_sec && !utc_offset_sec)
 		return -EINVAL;
 
+	/* The month is used as an index */
+	if (tm->tm_mon < 0 || tm->tm_mon > 11)
+		return -EINVAL;
+
 #ifdef _WIN32
 	if (epoch_sec)
 		*epoch_sec = tm_mkepoch_local(tm, 0);
-- 
2.43.0


From 20bf27bf3afd90c555c4e2e5a4d62fec77b49de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 16/26] fix: random: base64: do not share bits between the last
 characters

The characters of the last blob were taken 3 bits apart from the same random
value, so each one gave half of the next one.
---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From 3eb24486ff438c5f1aca698ac8390898b14d0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 17/26] fix: safew: file_check: synchronize the tmp crc before
 it is used

---
 src/safew.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/safew.c b/src/safew.c
index e18f26e..f528234 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -385,6 +385,15 @@ int futils_safew_file_check(const char *pathname)
 	crc_fhd = fopen(crc_fp.path, "r");
 	tmp_crc_fhd = fopen(crc_fp.tmp_path, "r");
 
+	/* the tmp crc may be there without having been synchronized, and once
+	 * it is used the previous pair can't be recovered */
+#if !defined(_WIN32)
+# if !defined(THREADX_OS)
+	if (tmp_crc_fhd && fsync(fileno(tmp_crc_fhd)))
+		ULOGE("can't synchronize %s", crc_fp.tmp_path);
+# endif
+#endif
+
 	/* create an error code with existing files */
 	uint8_t present_files =
 		((payload_fhd != NULL) * PAYLOAD) +
-- 
2.43.0


From 737d05ecffaeb998401a8bbc1c3124bedfabda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 18/26] fix: timetools: time_timespec_add_us: overflow of large
 deltas

---
 src/timetools.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 757e73b..0180b54 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -457,7 +457,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	int ret;
+
+	/* the whole delta in nanoseconds may not fit in 64 bits */
+	ret = time_timespec_add_ns(ts, (delta % 1000000) * 1000, res);
+	if (ret < 0)
+		return ret;
+
+	res->tv_sec += delta / 1000000;
+	return 0;
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From a30dc0904c2cf47ebe97fe7fe0a97ed17f10ecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 19/26] fix: string: refuse characters beyond U+10FFFF

iconv converts 4-byte sequences up to f7 bf bf bf, which are not valid
UTF-8: they were accepted and copied.
---
 src/string.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index 404a6d8..5c0a36e 100644
--- a/src/string.c
+++ b/src/string.c
@@ -33,6 +33,7 @@
 
 #include <errno.h>
 #include <iconv.h>
+#include <stdint.h>
 #include <wchar.h>
 
 #define ULOG_TAG futils_string
@@ -43,7 +44,7 @@ ULOG_DECLARE_TAG(ULOG_TAG);
 static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 {
 	char *input, *output;
-	size_t inbytes, outbytes, outsize, sret;
+	size_t inbytes, outbytes, outsize, sret, i;
 	wchar_t *woutput = NULL;
 	iconv_t conv;
 	int ret = 0;
@@ -79,6 +80,14 @@ static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 	/* ret is the number of wide characters written to output_ */
 	ret = (outsize - outbytes) / sizeof(wchar_t);
 
+	/* iconv may accept code points beyond the end of Unicode */
+	for (i = 0; i < (size_t)ret; i++) {
+		if ((uint32_t)woutput[i] <= 0x10ffff)
+			continue;
+		ret = -EILSEQ;
+		goto exit;
+	}
+
 
 exit:
 	iconv_close(conv);
-- 
2.43.0


From 3ed5285fba72fa07cf38065296a25588473138c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:20 +0000
Subject: [PATCH 20/26] fix: list_pop() of a list given by a conditional
 expression

The argument was not parenthesized in the comparison, so that the list
was always said to be empty.
---
 include/futils/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/futils/list.h b/include/futils/list.h
index 6344b5a..333d108 100644
--- a/include/futils/list.h
+++ b/include/futils/list.h
@@ -272,7 +272,7 @@ list_length(const struct list_node *list)
 #define list_pop(list, type, member)                                           \
 	({                                                                     \
 		__typeof__(((type *)0)->member) * __pop_ptr = list_first(list);\
-		__pop_ptr == list ? NULL : ({                                  \
+		__pop_ptr == (list) ? NULL : ({                                \
 			list_del(__pop_ptr);                                   \
 			FUTILS_CONTAINER_OF(__pop_ptr, type, member);          \
 		});                                                            \
-- 
2.43.0


From ca05b010bd136c4d86cd506d2d283dd458d3e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:57 +0000
Subject: [PATCH 21/26] fix: dynmbox: one notification byte for all the
 messages

The pipe may be smaller than the number of queued messages: Linux gives
pipes of one or two pages to users beyond pipe-user-pages-soft. The bytes
which did not fit were lost, and the descriptor was not readable any more
although messages were queued.
---
 src/dynmbox.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index e18d1f9..2f3ab8a 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -499,6 +499,7 @@ int dynmbox_push(struct dynmbox *box,
 			 size_t msg_size)
 {
 	int res;
+	bool was_empty;
 
 	if (!box || msg_size > box->max_msg_size || (msg_size > 0 && !msg))
 		return -EINVAL;
@@ -507,13 +508,17 @@ int dynmbox_push(struct dynmbox *box,
 	pthread_mutex_lock(&box->lock);
 
 	/* Write message to ring buffer */
+	was_empty = rbuf_is_empty(box);
 	res = do_push(box, msg, msg_size);
 	if (res)
 		goto fail;
 
 	/* Write one byte into pipe/socket to signal mbox is readable; the lock
-	 * is kept so that the message can't be read before its byte */
-	push_notify(box);
+	 * is kept so that the message can't be read before its byte. There is
+	 * one byte for all the messages, as the pipe may be too small for one
+	 * byte per message */
+	if (was_empty)
+		push_notify(box);
 
 	pthread_mutex_unlock(&box->lock);
 
@@ -547,6 +552,7 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	struct timeval tv_now;
 	struct timespec ts_now;
 	struct timespec ts_abs;
+	bool was_empty;
 
 	if (!box || msg_size > box->max_msg_size || (msg_size > 0 && !msg))
 		return -EINVAL;
@@ -576,13 +582,15 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	}
 
 	/* Write message to ring buffer (should always succeed) */
+	was_empty = rbuf_is_empty(box);
 	res = do_push(box, msg, msg_size);
 	assert(res == 0);
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
 	/* Signal consumers, with the lock kept as in dynmbox_push() */
-	push_notify(box);
+	if (was_empty)
+		push_notify(box);
 
 	pthread_mutex_unlock(&box->lock);
 
@@ -611,14 +619,16 @@ ssize_t dynmbox_peek(struct dynmbox *box, void *msg)
 		goto fail;
 	}
 
-	/* Read one byte from pipe/socket, ignoring failure */
-	pop_notify(box);
-
 	/* Read message from ring buffer */
 	msglen = do_peek(box, msg);
 	if (msglen < 0)
 		goto fail;
 
+	/* Read the byte from pipe/socket after the last message, ignoring
+	 * failure */
+	if (rbuf_is_empty(box))
+		pop_notify(box);
+
 	/* Signal condition */
 	pthread_cond_signal(&box->cond);
 
-- 
2.43.0


From e7ee02b211b28b6a8f1a784899a82550ebff27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 22/26] fix: dynmbox: dynmbox_push_block: timeout independent
 of the wall clock

Setting the wall clock during the wait made the timeout expire at once, or
not at all.
---
 src/dynmbox.c | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 2f3ab8a..6bb3b39 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -289,6 +289,39 @@ static void pop_notify(struct dynmbox *box)
 }
 #endif
 
+#ifdef __linux__
+/* The timeouts do not depend on the changes of the wall clock */
+static void init_cond(struct dynmbox *box)
+{
+	pthread_condattr_t attr;
+
+	pthread_condattr_init(&attr);
+	pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+	pthread_cond_init(&box->cond, &attr);
+	pthread_condattr_destroy(&attr);
+}
+
+static int get_cond_time(struct timespec *ts)
+{
+	return time_get_monotonic(ts);
+}
+#else
+static void init_cond(struct dynmbox *box)
+{
+	pthread_cond_init(&box->cond, NULL);
+}
+
+static int get_cond_time(struct timespec *ts)
+{
+	struct timeval tv;
+
+	if (gettimeofday(&tv, NULL) < 0)
+		return -errno;
+
+	return time_timeval_to_timespec(&tv, ts);
+}
+#endif
+
 struct dynmbox *dynmbox_new(size_t max_msg_size)
 {
 	struct dynmbox *box;
@@ -320,7 +353,7 @@ struct dynmbox *dynmbox_new(size_t max_msg_size)
 
 	/* mutex + cond */
 	pthread_mutex_init(&box->lock, NULL);
-	pthread_cond_init(&box->cond, NULL);
+	init_cond(box);
 
 	box->max_msg_size = max_msg_size;
 	return box;
@@ -549,7 +582,6 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		size_t msg_size, unsigned int timeout_ms)
 {
 	int res;
-	struct timeval tv_now;
 	struct timespec ts_now;
 	struct timespec ts_abs;
 	bool was_empty;
@@ -558,13 +590,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		return -EINVAL;
 
 	if (timeout_ms > 0) {
-		res = gettimeofday(&tv_now, NULL);
-		if (res) {
-			res = -errno;
-			ULOG_ERRNO("gettimeofday()", -res);
+		res = get_cond_time(&ts_now);
+		if (res < 0) {
+			ULOG_ERRNO("get_cond_time()", -res);
 			return res;
 		}
-		time_timeval_to_timespec(&tv_now, &ts_now);
 		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
 				     &ts_abs);
 	}
-- 
2.43.0


From 53a15076cd2db37d301caff7765f7189ecdf15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 23/26] fix: mbox: mbox_push_block: timeout of the whole call

Each interruption by a signal, and each time another producer was faster,
started the timeout again: it might never expire.
---
 src/mbox.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/mbox.c b/src/mbox.c
index 3d75c19..bd7eceb 100644
--- a/src/mbox.c
+++ b/src/mbox.c
@@ -38,6 +38,7 @@
 #include <limits.h>
 #include "futils/fdutils.h"
 #include "futils/mbox.h"
+#include "futils/timetools.h"
 
 #define ULOG_TAG mbox
 #include <ulog.h>
@@ -116,17 +117,40 @@ int mbox_push(struct mbox *box, const void *msg)
 	return (ret < 0) ? -errno : 0;
 }
 
+/* milliseconds until the given monotonic time, rounded up */
+static int remaining_ms(const struct timespec *end)
+{
+	struct timespec now, left;
+	int ret;
+
+	ret = time_get_monotonic(&now);
+	if (ret < 0)
+		return ret;
+	if (time_timespec_diff(&now, end, &left) < 0)
+		return 0;
+
+	return (int)(left.tv_sec * 1000 + (left.tv_nsec + 999999) / 1000000);
+}
+
 int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 {
 	int res;
-	int timeout;
+	int timeout = -1;
+	struct timespec end;
 
 	if (!msg || !box)
 		return -EINVAL;
 	/* poll() expects an int for timeout */
 	if (timeout_ms > INT_MAX)
 		return -EINVAL;
-	timeout = (timeout_ms == 0) ? -1 : (int)timeout_ms;
+	/* The delay is the one of the whole call, however many times the wait
+	 * is interrupted */
+	if (timeout_ms != 0) {
+		res = time_get_monotonic(&end);
+		if (res < 0)
+			return res;
+		time_timespec_add_us(&end, (int64_t)timeout_ms * 1000, &end);
+	}
 
 again:
 	/* Block until we have at least PIPE_BUF bytes in the pipe */
@@ -137,6 +161,11 @@ again:
 			.revents = 0,
 		};
 
+		if (timeout_ms != 0) {
+			timeout = remaining_ms(&end);
+			if (timeout < 0)
+				return timeout;
+		}
 		res = poll(&pfd, 1, timeout);
 	} while (res == -1 && errno == EINTR);
 
-- 
2.43.0


From 15cc9747a25893294f7cd3a6d3cc7223732c46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:23 +0000
Subject: [PATCH 24/26] fix: fs: dirname, basename: no wrong name when memory
 is short

---
 src/fs.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fs.cpp b/src/fs.cpp
index 9c01f08..083b195 100644
--- a/src/fs.cpp
+++ b/src/fs.cpp
@@ -47,10 +47,9 @@ namespace fs
 
 std::string dirname(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(::dirname(str));
-	free(str);
-	return res;
+	/* libgen modifies its argument */
+	std::string str(path.c_str());
+	return ::dirname(&str[0]);
 }
 
 /* libgen.h redefine basename to __xpg_basename, if we want to have the correct
@@ -66,10 +65,9 @@ static char *wrap_basename(char *path)
 
 std::string basename(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(wrap_basename(str));
-	free(str);
-	return res;
+	/* libgen modifies its argument */
+	std::string str(path.c_str());
+	return wrap_basename(&str[0]);
 }
 
 }
-- 
2.43.0


From 2fbc20c61a425d6ad8d9b6cf1fc10ac936d8d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:23 +0000
Subject: [PATCH 25/26] fix: systimetools: time_local_ms_get: offset of the
 second which is given

---
 src/systimetools.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/systimetools.c b/src/systimetools.c
index 8787499..8f36dab 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -682,9 +682,8 @@ int time_local_ms_get(uint64_t *epoch_sec, uint16_t *ms,
 	GetTimeZoneInformation(&tzi);
 	*utc_offset_sec = tzi.Bias * 60;
 #else
-	time_t dt;
+	time_t dt = tv.tv_sec;
 	struct tm tm;
-	time(&dt);
 	localtime_r(&dt, &tm);
 	*utc_offset_sec = tm.tm_gmtoff;
 #endif
-- 
2.43.0


From 139d8e119b92cb14d16176e76345d62fe7d4530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:23 +0000
Subject: [PATCH 26/26] fix: safew: file_check: do not erase the files which
 could not be checked

---
 include/futils/safew.h |   4 ++
 src/safew.c            | 109 ++++++++++++++++++++++++++++++++---------
 2 files changed, 89 insertions(+), 24 deletions(-)

diff --git a/include/futils/safew.h b/include/futils/safew.h
index 7882d9a..88e3619 100644
--- a/include/futils/safew.h
+++ b/include/futils/safew.h
@@ -83,6 +83,10 @@ struct futils_safew_file *futils_safew_fopen(const char *pathname);
  * X | X | X | X | pay.tmp/crc.tmp        | keep the first one if valid,
  *               |    then payload/crc    | if not keep the second one if valid,
  *                                        | if not erase all
+ *
+ * If the check itself can't be completed (a file can't be opened, read or
+ * moved), no file is erased, and the check can be done again.
+ *
  * @param pathname of file to check
  *
  * @return 0 if success, -1 on error
diff --git a/src/safew.c b/src/safew.c
index f528234..ce0ccea 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -29,6 +29,7 @@
  *
  ******************************************************************************/
 
+#include <errno.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -47,7 +48,7 @@ ULOG_DECLARE_TAG(ULOG_TAG);
 #define TMP_PAYLOAD (1 << 2)
 #define TMP_CRC (1 << 3)
 
-static void crc_from_fhd(FILE *fhd, uint32_t *crc)
+static int crc_from_fhd(FILE *fhd, uint32_t *crc)
 {
 	int val;
 
@@ -61,6 +62,8 @@ static void crc_from_fhd(FILE *fhd, uint32_t *crc)
 	*crc += *crc << 3;
 	*crc ^= *crc >> 11;
 	*crc += *crc << 15;
+
+	return ferror(fhd) ? -1 : 0;
 }
 
 static int crc_from_file(const char *pathname, uint32_t *crc)
@@ -73,9 +76,7 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 		return -1;
 	}
 
-	crc_from_fhd(fhd, crc);
-	if (ferror(fhd))
-		ret = -1;
+	ret = crc_from_fhd(fhd, crc);
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
 	if (fclose(fhd) < 0)
@@ -104,7 +105,9 @@ static int check_pair(FILE *payload_fhd, FILE *crc_fhd)
 	if (ret < 0)
 		return ret;
 
-	crc_from_fhd(payload_fhd, &payload_crc);
+	ret = crc_from_fhd(payload_fhd, &payload_crc);
+	if (ret < 0)
+		return ret;
 
 	if (crc != payload_crc)
 		return -1;
@@ -356,6 +359,31 @@ size_t futils_safew_fwrite(const void *ptr, size_t size, size_t nmemb,
 	return ret;
 }
 
+/* open a file to check; 'failed' is set if it may exist but can't be opened */
+static FILE *check_fopen(const char *pathname, bool *failed)
+{
+	FILE *fhd = fopen(pathname, "r");
+
+	if (fhd == NULL && errno != ENOENT && errno != ENOTDIR) {
+		ULOGE("can't open file %s", pathname);
+		*failed = true;
+	}
+
+	return fhd;
+}
+
+static int check_rename(const char *from, const char *to, bool *failed)
+{
+	int ret = rename(from, to);
+
+	if (ret < 0) {
+		ULOGE("can't rename %s", from);
+		*failed = true;
+	}
+
+	return ret;
+}
+
 int futils_safew_file_check(const char *pathname)
 {
 	struct futils_safew_file fp;
@@ -367,6 +395,7 @@ int futils_safew_file_check(const char *pathname)
 	FILE *crc_fhd;
 	FILE *tmp_payload_fhd;
 	FILE *tmp_crc_fhd;
+	bool failed = false;
 
 	int ret;
 
@@ -380,20 +409,28 @@ int futils_safew_file_check(const char *pathname)
 		return -1;
 
 	/* try to open all files */
-	payload_fhd = fopen(pathname, "r");
-	tmp_payload_fhd = fopen(fp.tmp_path, "r");
-	crc_fhd = fopen(crc_fp.path, "r");
-	tmp_crc_fhd = fopen(crc_fp.tmp_path, "r");
+	payload_fhd = check_fopen(pathname, &failed);
+	tmp_payload_fhd = check_fopen(fp.tmp_path, &failed);
+	crc_fhd = check_fopen(crc_fp.path, &failed);
+	tmp_crc_fhd = check_fopen(crc_fp.tmp_path, &failed);
 
 	/* the tmp crc may be there without having been synchronized, and once
 	 * it is used the previous pair can't be recovered */
 #if !defined(_WIN32)
 # if !defined(THREADX_OS)
-	if (tmp_crc_fhd && fsync(fileno(tmp_crc_fhd)))
+	if (tmp_crc_fhd && fsync(fileno(tmp_crc_fhd))) {
 		ULOGE("can't synchronize %s", crc_fp.tmp_path);
+		failed = true;
+	}
 # endif
 #endif
 
+	/* the files can't be told valid or not: leave them */
+	if (failed) {
+		ret = -1;
+		goto close_files;
+	}
+
 	/* create an error code with existing files */
 	uint8_t present_files =
 		((payload_fhd != NULL) * PAYLOAD) +
@@ -461,7 +498,7 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp crc file */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = check_rename(crc_fp.tmp_path, crc_fp.path, &failed);
 		break;
 
 	case TMP_PAYLOAD + TMP_CRC:
@@ -471,18 +508,20 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp payload and crc */
-		ret = rename(fp.tmp_path, pathname);
+		ret = check_rename(fp.tmp_path, pathname, &failed);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = check_rename(crc_fp.tmp_path, crc_fp.path, &failed);
 		break;
 
 	case PAYLOAD + CRC + TMP_CRC:
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
-		ret = read_crc(crc_fhd, &crc);
+		ret = crc_from_fhd(payload_fhd, &payload_crc);
+		if (ret < 0)
+			break;
 
-		crc_from_fhd(payload_fhd, &payload_crc);
+		ret = read_crc(crc_fhd, &crc);
 
 		/* if pair matches let's stop here */
 		if (ret == 0 && crc == payload_crc)
@@ -496,7 +535,8 @@ int futils_safew_file_check(const char *pathname)
 
 		if (crc == payload_crc) {
 			/* rename tmp crc */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = check_rename(crc_fp.tmp_path, crc_fp.path,
+					   &failed);
 			break;
 		}
 
@@ -514,7 +554,9 @@ int futils_safew_file_check(const char *pathname)
 		if (ret < 0)
 			break;
 
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		ret = crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		if (ret < 0)
+			break;
 
 		/* if pair doesn't match erase all */
 		if (tmp_crc != tmp_payload_crc) {
@@ -525,10 +567,10 @@ int futils_safew_file_check(const char *pathname)
 
 		/* rename tmp payload and tmp crc; in this order, so that the
 		 * state in between is a stage 3 or a stage 8 */
-		ret = rename(fp.tmp_path, pathname);
+		ret = check_rename(fp.tmp_path, pathname, &failed);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = check_rename(crc_fp.tmp_path, crc_fp.path, &failed);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -537,16 +579,19 @@ int futils_safew_file_check(const char *pathname)
 		 * Check tmp pair first, if it fails (or if tmp crc is not
 		 * completely written) test the other one
 		 */
-		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		ret = crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
+		if (ret < 0)
+			break;
 
+		ret = read_crc(tmp_crc_fhd, &tmp_crc);
 		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload and tmp crc (in this order, so
 			 * that the state in between is a stage 8) */
-			ret = rename(fp.tmp_path, pathname);
+			ret = check_rename(fp.tmp_path, pathname, &failed);
 			if (ret < 0)
 				break;
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = check_rename(crc_fp.tmp_path, crc_fp.path,
+					   &failed);
 			break;
 		}
 
@@ -555,7 +600,9 @@ int futils_safew_file_check(const char *pathname)
 		if (ret < 0)
 			break;
 
-		crc_from_fhd(payload_fhd, &payload_crc);
+		ret = crc_from_fhd(payload_fhd, &payload_crc);
+		if (ret < 0)
+			break;
 
 		if (crc != payload_crc) {
 			ULOGE("no matching crc found for %s", pathname);
@@ -564,6 +611,16 @@ int futils_safew_file_check(const char *pathname)
 		break;
 	}
 
+	/* a file which could not be read is not an invalid one */
+	if ((payload_fhd && ferror(payload_fhd)) ||
+	    (tmp_payload_fhd && ferror(tmp_payload_fhd)) ||
+	    (crc_fhd && ferror(crc_fhd)) ||
+	    (tmp_crc_fhd && ferror(tmp_crc_fhd))) {
+		ULOGE("can't read the files of %s", pathname);
+		failed = true;
+	}
+
+close_files:
 	/* close files */
 	if (payload_fhd)
 		if (fclose(payload_fhd) < 0)
@@ -578,6 +635,10 @@ int futils_safew_file_check(const char *pathname)
 		if (fclose(tmp_crc_fhd) < 0)
 			ULOGE("error closing %s", crc_fp.tmp_path);
 
+	/* keep all the files if their check could not be completed */
+	if (failed)
+		return -1;
+
 	/* remove remaining tmp file */
 	unlink(fp.tmp_path);
 	unlink(crc_fp.tmp_path);
-- 
2.43.0

