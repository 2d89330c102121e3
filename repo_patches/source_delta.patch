From dbf232a487a4c5ae2f4d24cc1d9e36149846f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 01/25] fix: varint: bound reads to the given length and reject
 overflowing values

The decoder checked the source length after having read a byte and looked
at the byte following the last allowed one, so that truncated input was read
past its end, the byte after a maximal encoding decided whether it was
accepted, and bits that do not fit in the value were silently dropped.
---
 src/varint.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..4d1058d 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -44,14 +44,15 @@
  * @param src_len : Source length.
  * @param val[out] : Value read.
  * @param val_len[out] : Length in byte read from the source.
- * @param val_len_max : Maximum value length in byte read.
+ * @param val_size : Size in byte of the value to decode.
  *
  * @return 0 in case of success, negative errno value in case of error.
  */
 static int futils_varint_read(const uint8_t *src, size_t src_len,
-		uint64_t *val, size_t *val_len, size_t val_len_max)
+		uint64_t *val, size_t *val_len, size_t val_size)
 {
 	uint32_t shift = 0;
+	uint32_t bits = val_size * 8;
 	size_t offset = 0;
 	int more = 0;
 
@@ -61,15 +62,16 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
+		/* Truncated data, or byte not representable in the value */
+		if (offset >= src_len || shift >= bits ||
+		    (bits - shift < 7 && src[offset] >> (bits - shift)))
+			return -EPROTO;
+
 		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
 		more = src[offset] & 0x80;
 
 		offset++;
 		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
-			return -EPROTO;
 	} while (more);
 
 	*val_len = offset;
@@ -122,7 +124,7 @@ int futils_varint_read_u16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	*val = (uint16_t)val64;
 	return res;
@@ -144,7 +146,7 @@ int futils_varint_read_i16(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int16_t)(val64 >> 1)) ^ -((int16_t)(val64 & 0x1));
@@ -170,7 +172,7 @@ int futils_varint_read_u32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	*val = (uint32_t)val64;
 	return res;
@@ -192,7 +194,7 @@ int futils_varint_read_i32(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 1);
+			&val64, val_len, sizeof(*val));
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int32_t)(val64 >> 1)) ^ -((int32_t)(val64 & 0x1));
@@ -212,7 +214,7 @@ int futils_varint_read_u64(const uint8_t *src, size_t src_len,
 		uint64_t *val, size_t *val_len)
 {
 	return futils_varint_read(src, src_len,
-			val, val_len, sizeof(*val) + 2);
+			val, val_len, sizeof(*val));
 }
 
 int futils_varint_write_u64(uint8_t *dst, size_t dst_len,
@@ -231,7 +233,7 @@ int futils_varint_read_i64(const uint8_t *src, size_t src_len,
 		return -EINVAL;
 
 	res = futils_varint_read(src, src_len,
-			&val64, val_len, sizeof(*val) + 2);
+			&val64, val_len, sizeof(*val));
 
 	/* Zigzag decoding, use logical right shift, without sign propagation */
 	*val = ((int64_t)(val64 >> 1)) ^ -((int64_t)(val64 & 0x1));
-- 
2.43.0


From d09b6af050dc40b94c1bb93e90042d5d00757643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 02/25] fix: varint: do not left shift negative values in
 zigzag encoding

---
 src/varint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index 4d1058d..0bdac11 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -157,7 +157,7 @@ int futils_varint_write_i16(uint8_t *dst, size_t dst_len,
 		int16_t val, size_t *val_len)
 {
 	/* Zigzag encoding, use arithmetic right shift, with sign propagation */
-	uint64_t val64 = (uint16_t)((val << 1) ^ (val >> 15));
+	uint64_t val64 = (uint16_t)(((uint16_t)val << 1) ^ (val >> 15));
 	return futils_varint_write(dst, dst_len,
 			val64, val_len, sizeof(val) + 1);
 }
@@ -205,7 +205,7 @@ int futils_varint_write_i32(uint8_t *dst, size_t dst_len,
 		int32_t val, size_t *val_len)
 {
 	/* Zigzag encoding, use arithmetic right shift, with sign propagation */
-	uint64_t val64 = (uint32_t)((val << 1) ^ (val >> 31));
+	uint64_t val64 = (uint32_t)(((uint32_t)val << 1) ^ (val >> 31));
 	return futils_varint_write(dst, dst_len,
 			val64, val_len, sizeof(val) + 1);
 }
@@ -244,7 +244,7 @@ int futils_varint_write_i64(uint8_t *dst, size_t dst_len,
 		int64_t val, size_t *val_len)
 {
 	/* Zigzag encoding, use arithmetic right shift, with sign propagation */
-	uint64_t val64 = (uint64_t)((val << 1) ^ (val >> 63));
+	uint64_t val64 = (uint64_t)(((uint64_t)val << 1) ^ (val >> 63));
 	return futils_varint_write(dst, dst_len,
 			val64, val_len, sizeof(val) + 2);
 }
-- 
2.43.0


From 087331f1e9e7439de86827ac9e85384f950e4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 03/25] fix: dynmbox: notify the consumer with the lock held

The notification was written after the lock had been released: a consumer
polling from its own loop could read the message before its notification,
which then stayed in the pipe and left the read fd readable forever while
the mailbox was empty.
---
 src/dynmbox.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..73a1175 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -510,11 +510,13 @@ int dynmbox_push(struct dynmbox *box,
 	if (res)
 		goto fail;
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Write one byte into pipe/socket to signal mbox is readable */
+	/* Write one byte into pipe/socket to signal mbox is readable; done
+	 * with the lock held so that the consumer cannot read the message
+	 * before its notification */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -578,11 +580,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Signal consumers */
+	/* Signal consumers, with the lock held as in dynmbox_push() */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
-- 
2.43.0


From 7c7fbaaa654f430fb1d58c5ea2e3a092ba04298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 04/25] fix: dynmbox: do not overflow the push timeout above
 4294967 ms

---
 src/dynmbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 73a1175..2a67b59 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -559,7 +559,8 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				&ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From 961adcc2a2b236c166caa04bb7d0450dc94c707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 05/25] fix: dynmbox: set close-on-exec on both ends of the
 pipe

---
 src/dynmbox.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 2a67b59..a909dc2 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -256,10 +256,11 @@ static int init_notify_channel(struct dynmbox *box)
 	if (ret < 0)
 		return -errno;
 
-	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	/* set pipes non blocking and CLOEXEC flag */
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 7d92d2a203819879029108e37fd45f117f18b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 06/25] fix: mbox: keep waiting when another producer takes the
 free space

mbox_push_block() waits for free space then writes. With several producers
the space can be taken in between, and the call then returned -EAGAIN
although its timeout had not expired (or was infinite). Wait again with
the remaining time, also when poll() is interrupted by a signal.
---
 src/mbox.c | 53 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/mbox.c b/src/mbox.c
index 4f709cc..f74851f 100644
--- a/src/mbox.c
+++ b/src/mbox.c
@@ -38,6 +38,7 @@
 #include <limits.h>
 #include "futils/fdutils.h"
 #include "futils/mbox.h"
+#include "futils/timetools.h"
 
 #define ULOG_TAG mbox
 #include <ulog.h>
@@ -120,6 +121,9 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 {
 	int res;
 	int timeout;
+	struct timespec start;
+	struct timespec elapsed;
+	uint64_t elapsed_ms = 0;
 
 	if (!msg || !box)
 		return -EINVAL;
@@ -128,8 +132,14 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 		return -EINVAL;
 	timeout = (timeout_ms == 0) ? -1 : (int)timeout_ms;
 
-	/* Block until we have at least PIPE_BUF bytes in the pipe */
-	do {
+	if (timeout_ms > 0) {
+		res = time_get_monotonic(&start);
+		if (res < 0)
+			return res;
+	}
+
+	for (;;) {
+		/* Block until we have at least PIPE_BUF bytes in the pipe */
 		struct pollfd pfd = {
 			.fd = box->fds[1],
 			.events = POLLOUT,
@@ -137,18 +147,33 @@ int mbox_push_block(struct mbox *box, const void *msg, unsigned int timeout_ms)
 		};
 
 		res = poll(&pfd, 1, timeout);
-	} while (res == -1 && errno == EINTR);
-
-	if (res == 0)
-		return -ETIMEDOUT;
-	if (res == -1)
-		return -errno;
-	/* When poll indicates that the write will not block, it means that at
-	 * least PIPE_BUF bytes can be written without blocking, or that an
-	 * error occured on the file descriptor, in which case the write is
-	 * expected to fail.
-	 */
-	return mbox_push(box, msg);
+		if (res == 0)
+			return -ETIMEDOUT;
+		if (res == -1 && errno != EINTR)
+			return -errno;
+
+		/* When poll indicates that the write will not block, it means
+		 * that at least PIPE_BUF bytes can be written without
+		 * blocking, or that an error occured on the file descriptor,
+		 * in which case the write is expected to fail.
+		 * Another producer may still have used the space meanwhile.
+		 */
+		if (res > 0) {
+			res = mbox_push(box, msg);
+			if (res != -EAGAIN)
+				return res;
+		}
+
+		/* Try again with the remaining time */
+		if (timeout_ms > 0) {
+			res = time_timespec_diff_now(&start, &elapsed);
+			if (res < 0)
+				return res;
+			time_timespec_to_ms(&elapsed, &elapsed_ms);
+			timeout = (elapsed_ms < timeout_ms) ?
+					(int)(timeout_ms - elapsed_ms) : 0;
+		}
+	}
 }
 
 int mbox_peek(struct mbox *box, void *msg)
-- 
2.43.0


From 30a4a6cd35365987d0fe95608907a6a49e5dab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 07/25] fix: random: use fresh bits for each trailing base64
 character

The bits of the last group were shifted by 3 instead of 6, so that
neighbouring characters shared half of their bits.
---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From ce777b836c31b7805482cde8ca469d0bfcdc88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 08/25] fix: timetools: return a normalized timespec difference

With equal nanoseconds the difference was (seconds - 1, 1000000000 ns),
and (-1, 1000000000) for equal times.
---
 src/timetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..3b16731 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
-- 
2.43.0


From 224024a038845f61edfe1e9349eda091dbb04fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:15 +0000
Subject: [PATCH 09/25] fix: timetools: set the difference of equal times in
 range checks

---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 3b16731..757e73b 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From 4f3840bff41b02b93979f561a5ffc314cad6b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 10/25] fix: timetools: do not overflow when adding large
 microsecond values

---
 src/timetools.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 757e73b..96a9e9e 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -457,7 +457,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	int ret;
+
+	/* Handle seconds separately, delta in ns may not fit in 64 bits */
+	ret = time_timespec_add_ns(ts, (delta % 1000000) * 1000, res);
+	if (ret < 0)
+		return ret;
+	res->tv_sec += delta / 1000000;
+
+	return 0;
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From 3a5307db402600325f1a6a0cfc57f2d6d699e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 11/25] fix: systimetools: reject months outside 1..12

The month of a numeric date indexes a table when converting to epoch;
values from 15 to 99 read past its end.
---
 src/systimetools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..a82f1af 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -162,6 +162,8 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	ret = parse_num(mon_s, mon);
 	if (ret < 0)
 		return ret;
+	if (*mon < 1 || *mon > 12)
+		return -EINVAL;
 	ret = parse_num(mday_s, mday);
 	if (ret < 0)
 		return ret;
-- 
2.43.0


From 8e61078f822a8d60420ed78563ce2d56a6c0b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 12/25] fix: synctools: report a failure to sync the file

sync_file_and_folder() returned the result of the folder only, hence 0
when the file could not be opened or synchronized.
---
 src/synctools.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..794638c 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -88,6 +88,7 @@ int sync_folder(const char *folderpath)
 int sync_file_and_folder(const char *filepath)
 {
 	int ret;
+	int folder_ret;
 	char *slash;
 	char *folderpath;
 
@@ -112,11 +113,14 @@ int sync_file_and_folder(const char *filepath)
 	}
 	slash[1] = '\0';
 
-	/* sync parent folder */
-	ret = sync_folder(folderpath);
-	if (ret < 0)
-		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, ret,
-				strerror(-ret));
+	/* sync parent folder, still reporting a failure to sync the file */
+	folder_ret = sync_folder(folderpath);
+	if (folder_ret < 0) {
+		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath,
+				folder_ret, strerror(-folder_ret));
+		if (ret == 0)
+			ret = folder_ret;
+	}
 
 out:
 	free(folderpath);
-- 
2.43.0


From b06271a00daefbf9fa2c0dcba6d7562678dec3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 13/25] fix: synctools: do not crash on a NULL path in
 sync_file_and_folder()

---
 src/synctools.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/synctools.c b/src/synctools.c
index 794638c..ba06f65 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -92,6 +92,9 @@ int sync_file_and_folder(const char *filepath)
 	char *slash;
 	char *folderpath;
 
+	if (!filepath)
+		return -EINVAL;
+
 	/* sync file */
 	ret = sync_file(filepath);
 	if (ret < 0)
-- 
2.43.0


From da3e388ced796faf6e0c508ea91f64348ce65f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 14/25] fix: safew: keep the previous payload recoverable when
 a commit fails

On any failure, futils_safew_fclose_commit_with_crc() removed the crc of
the previous, still valid, payload: the next futils_safew_file_check()
then erased that payload too. Only remove temporary files, and keep the
temporary crc when it is the one of the payload already in place.
---
 src/safew.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..e7979b7 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -230,6 +230,7 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 			       bool with_crc)
 {
 	int ret = 0;
+	bool moved = false;
 	struct futils_safew_crc crc_fp = { {}, {} };
 
 	if (safew_fp == NULL)
@@ -270,22 +271,24 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 	/* Ensure the update is atomic, in order to prevent partial
 	 * write. With this rename, the file is either previous one,
 	 * either new one once completely written. */
-	if (ret == 0)
+	if (ret == 0) {
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
+		moved = (ret == 0);
+	}
 
 	if (ret == 0 && with_crc)
-		/* move tmp payload to payload */
+		/* move tmp crc to crc */
 		ret = rename(crc_fp.tmp_path, crc_fp.path);
 
 	if (ret < 0) {
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
 		unlink(safew_fp->tmp_path);
 
-		if (with_crc) {
-			unlink(crc_fp.path);
+		/* Keep the crc of the previous payload and, once the new
+		 * payload is in place, the only crc matching it */
+		if (with_crc && !moved)
 			unlink(crc_fp.tmp_path);
-		}
 	}
 
 	free(safew_fp);
-- 
2.43.0


From f6741de482330152643cf3bf25edc05905c88060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 15/25] fix: safew: recover the payload before its crc in file
 check

futils_safew_file_check() moved the temporary crc first: interrupted
before moving the payload, it left a payload not matching its crc and a
temporary payload without crc, all erased by the next check.
---
 src/safew.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index e7979b7..c4e3c60 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -516,11 +516,12 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload and tmp crc, in the order of a commit so
+		 * that an interruption in between can be recovered */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -534,11 +535,11 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload and tmp crc */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From 79254b50e77a4b9f4e4263520892804068c83996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 16/25] fix: safew: check the other pair when a crc file is
 incomplete

An interruption while the temporary crc is being written leaves it empty:
futils_safew_file_check() then gave up and erased the previous payload and
crc although they were valid. An incomplete crc matches nothing.
---
 src/safew.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index c4e3c60..938438b 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -472,13 +472,11 @@ int futils_safew_file_check(const char *pathname)
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
 		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
 
 		crc_from_fhd(payload_fhd, &payload_crc);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		if (ret == 0 && crc == payload_crc)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -530,11 +528,9 @@ int futils_safew_file_check(const char *pathname)
 		 * Check tmp pair first, if it fails test the other one
 		 */
 		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
-		if (tmp_crc == tmp_payload_crc) {
+		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload and tmp crc */
 			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
-- 
2.43.0


From 4f7cb96b2655383c8ef92e1214712328cd422615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 17/25] fix: safew: fail the commit when the payload cannot be
 read back

A read error was taken for the end of the file: the crc of a truncated
payload was committed successfully and the next check erased both files.
---
 src/safew.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/safew.c b/src/safew.c
index 938438b..2e51dec 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -74,6 +74,11 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 	}
 
 	crc_from_fhd(fhd, crc);
+	if (ferror(fhd)) {
+		ULOGE("can't read file %s", pathname);
+		fclose(fhd);
+		return -1;
+	}
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
 	ret = fclose(fhd);
-- 
2.43.0


From d582e503c651591714e94b72e5eb15be9a12d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 18/25] fix: safew: do not erase files which could not be
 checked

futils_safew_file_check() took a file it failed to open or read (eg. no more
file descriptors, i/o error) for a missing or invalid one and erased a valid
payload and crc. Report the error and keep all files in this case, and when
a recovered file cannot be moved in place.
---
 src/safew.c | 69 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 12 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 2e51dec..ac267ae 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -29,6 +29,7 @@
  *
  ******************************************************************************/
 
+#include <errno.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -361,6 +362,31 @@ size_t futils_safew_fwrite(const void *ptr, size_t size, size_t nmemb,
 	return ret;
 }
 
+/* open a file for reading; failing to open an existing file is an i/o error */
+static FILE *open_if_exists(const char *pathname, bool *io_error)
+{
+	FILE *fhd;
+
+	errno = ENOENT;
+	fhd = fopen(pathname, "r");
+	if (fhd == NULL && errno != ENOENT) {
+		ULOGE("can't open file %s", pathname);
+		*io_error = true;
+	}
+
+	return fhd;
+}
+
+static int recover_file(const char *tmp_path, const char *path, bool *io_error)
+{
+	int ret = rename(tmp_path, path);
+
+	if (ret < 0)
+		*io_error = true;
+
+	return ret;
+}
+
 int futils_safew_file_check(const char *pathname)
 {
 	struct futils_safew_file fp;
@@ -372,6 +398,7 @@ int futils_safew_file_check(const char *pathname)
 	FILE *crc_fhd;
 	FILE *tmp_payload_fhd;
 	FILE *tmp_crc_fhd;
+	bool io_error = false;
 
 	int ret;
 
@@ -385,10 +412,14 @@ int futils_safew_file_check(const char *pathname)
 		return -1;
 
 	/* try to open all files */
-	payload_fhd = fopen(pathname, "r");
-	tmp_payload_fhd = fopen(fp.tmp_path, "r");
-	crc_fhd = fopen(crc_fp.path, "r");
-	tmp_crc_fhd = fopen(crc_fp.tmp_path, "r");
+	payload_fhd = open_if_exists(pathname, &io_error);
+	tmp_payload_fhd = open_if_exists(fp.tmp_path, &io_error);
+	crc_fhd = open_if_exists(crc_fp.path, &io_error);
+	tmp_crc_fhd = open_if_exists(crc_fp.tmp_path, &io_error);
+	if (io_error) {
+		ret = -1;
+		goto close_files;
+	}
 
 	/* create an error code with existing files */
 	uint8_t present_files =
@@ -457,7 +488,7 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp crc file */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = recover_file(crc_fp.tmp_path, crc_fp.path, &io_error);
 		break;
 
 	case TMP_PAYLOAD + TMP_CRC:
@@ -467,10 +498,10 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp payload and crc */
-		ret = rename(fp.tmp_path, pathname);
+		ret = recover_file(fp.tmp_path, pathname, &io_error);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = recover_file(crc_fp.tmp_path, crc_fp.path, &io_error);
 		break;
 
 	case PAYLOAD + CRC + TMP_CRC:
@@ -492,7 +523,7 @@ int futils_safew_file_check(const char *pathname)
 
 		if (crc == payload_crc) {
 			/* rename tmp crc */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = recover_file(crc_fp.tmp_path, crc_fp.path, &io_error);
 			break;
 		}
 
@@ -521,10 +552,10 @@ int futils_safew_file_check(const char *pathname)
 
 		/* rename tmp payload and tmp crc, in the order of a commit so
 		 * that an interruption in between can be recovered */
-		ret = rename(fp.tmp_path, pathname);
+		ret = recover_file(fp.tmp_path, pathname, &io_error);
 		if (ret < 0)
 			break;
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		ret = recover_file(crc_fp.tmp_path, crc_fp.path, &io_error);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -537,10 +568,10 @@ int futils_safew_file_check(const char *pathname)
 
 		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload and tmp crc */
-			ret = rename(fp.tmp_path, pathname);
+			ret = recover_file(fp.tmp_path, pathname, &io_error);
 			if (ret < 0)
 				break;
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			ret = recover_file(crc_fp.tmp_path, crc_fp.path, &io_error);
 			break;
 		}
 
@@ -558,6 +589,14 @@ int futils_safew_file_check(const char *pathname)
 		break;
 	}
 
+	/* a file which cannot be read is not known to be invalid */
+	if ((payload_fhd && ferror(payload_fhd)) ||
+	    (tmp_payload_fhd && ferror(tmp_payload_fhd)) ||
+	    (crc_fhd && ferror(crc_fhd)) ||
+	    (tmp_crc_fhd && ferror(tmp_crc_fhd)))
+		io_error = true;
+
+close_files:
 	/* close files */
 	if (payload_fhd)
 		if (fclose(payload_fhd) < 0)
@@ -572,6 +611,12 @@ int futils_safew_file_check(const char *pathname)
 		if (fclose(tmp_crc_fhd) < 0)
 			ULOGE("error closing %s", crc_fp.tmp_path);
 
+	/* nothing has been proved invalid: keep everything for a next check */
+	if (io_error) {
+		ULOGE("i/o error while checking: %s", pathname);
+		return -1;
+	}
+
 	/* remove remaining tmp file */
 	unlink(fp.tmp_path);
 	unlink(crc_fp.tmp_path);
-- 
2.43.0


From 380efca77e9c18d41be2e4fb89ba26c83dfb3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 19/25] fix: string: reject UTF-8 sequences above U+10FFFF

---
 src/string.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/string.c b/src/string.c
index 404a6d8..754e714 100644
--- a/src/string.c
+++ b/src/string.c
@@ -44,6 +44,7 @@ static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 {
 	char *input, *output;
 	size_t inbytes, outbytes, outsize, sret;
+	int i;
 	wchar_t *woutput = NULL;
 	iconv_t conv;
 	int ret = 0;
@@ -79,6 +80,15 @@ static int to_wchar_string(const char *input_, size_t in_len, wchar_t **output_)
 	/* ret is the number of wide characters written to output_ */
 	ret = (outsize - outbytes) / sizeof(wchar_t);
 
+	/* iconv accepts encodings of values which are not unicode characters */
+	for (i = 0; i < ret; i++) {
+		if ((unsigned long)woutput[i] > 0x10ffff) {
+			ULOGD("invalid character in input");
+			ret = -EILSEQ;
+			goto exit;
+		}
+	}
+
 
 exit:
 	iconv_close(conv);
-- 
2.43.0


From 960174d17c8c259f3ca21e1ff7e92330aef9d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 20/25] fix: safew: synchronize the recovered files before
 renaming them

---
 src/safew.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/safew.c b/src/safew.c
index ac267ae..2b34a2f 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -387,6 +387,23 @@ static int recover_file(const char *tmp_path, const char *path, bool *io_error)
 	return ret;
 }
 
+/* the process which wrote the files may have died before synchronizing them, do
+ * it before they replace other ones */
+static int sync_tmp_files(FILE *payload_fhd, FILE *crc_fhd, bool *io_error)
+{
+#if !defined(_WIN32)
+# if !defined(THREADX_OS)
+	if ((payload_fhd && fsync(fileno(payload_fhd)) < 0) ||
+	    fsync(fileno(crc_fhd)) < 0) {
+		*io_error = true;
+		return -1;
+	}
+# endif
+#endif
+
+	return 0;
+}
+
 int futils_safew_file_check(const char *pathname)
 {
 	struct futils_safew_file fp;
@@ -488,6 +505,9 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp crc file */
+		ret = sync_tmp_files(NULL, tmp_crc_fhd, &io_error);
+		if (ret < 0)
+			break;
 		ret = recover_file(crc_fp.tmp_path, crc_fp.path, &io_error);
 		break;
 
@@ -498,6 +518,10 @@ int futils_safew_file_check(const char *pathname)
 			break;
 
 		/* rename tmp payload and crc */
+		ret = sync_tmp_files(tmp_payload_fhd, tmp_crc_fhd,
+					     &io_error);
+		if (ret < 0)
+			break;
 		ret = recover_file(fp.tmp_path, pathname, &io_error);
 		if (ret < 0)
 			break;
@@ -523,6 +547,9 @@ int futils_safew_file_check(const char *pathname)
 
 		if (crc == payload_crc) {
 			/* rename tmp crc */
+			ret = sync_tmp_files(NULL, tmp_crc_fhd, &io_error);
+			if (ret < 0)
+				break;
 			ret = recover_file(crc_fp.tmp_path, crc_fp.path, &io_error);
 			break;
 		}
@@ -552,6 +579,10 @@ int futils_safew_file_check(const char *pathname)
 
 		/* rename tmp payload and tmp crc, in the order of a commit so
 		 * that an interruption in between can be recovered */
+		ret = sync_tmp_files(tmp_payload_fhd, tmp_crc_fhd,
+					     &io_error);
+		if (ret < 0)
+			break;
 		ret = recover_file(fp.tmp_path, pathname, &io_error);
 		if (ret < 0)
 			break;
@@ -568,6 +599,10 @@ int futils_safew_file_check(const char *pathname)
 
 		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload and tmp crc */
+			ret = sync_tmp_files(tmp_payload_fhd, tmp_crc_fhd,
+						     &io_error);
+			if (ret < 0)
+				break;
 			ret = recover_file(fp.tmp_path, pathname, &io_error);
 			if (ret < 0)
 				break;
-- 
2.43.0


From 57028dba7e7e9e64cf41345dd234157d32b648fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 21/25] fix: fs: report errors of readdir

---
 src/fs.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..ebc3af2 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -67,7 +67,16 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	while (1) {
+		errno = 0;
+		entry = readdir(dir);
+		if (!entry) {
+			ret = -errno;
+			if (ret < 0)
+				ULOG_ERRNO("can't readdir '%s'", errno, path);
+			goto clean;
+		}
+
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
-- 
2.43.0


From a7e856446e69dc9a35961f731138a3b46d10ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 22/25] fix: fs: do not stat truncated paths

---
 src/fs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index ebc3af2..a1a9324 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -48,6 +48,7 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	DIR *dir;
 	int64_t ret = 0;
 	int64_t size = 0;
+	int len;
 	struct dirent *entry = NULL;
 	char *filepath = NULL;
 	struct stat stats;
@@ -82,7 +83,14 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		len = snprintf(filepath, FILENAME_MAX, "%s/%s", path,
+			       entry->d_name);
+		if (len < 0 || len >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			ULOG_ERRNO("path of '%s' too long", (int)-ret,
+				   entry->d_name);
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From 393edba99e9797ea115ed6a9230eef3541a51dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 23/25] fix: fs: do not ignore allocation failures in dirname
 and basename

---
 src/fs.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fs.cpp b/src/fs.cpp
index 9c01f08..9fab1d8 100644
--- a/src/fs.cpp
+++ b/src/fs.cpp
@@ -47,10 +47,9 @@ namespace fs
 
 std::string dirname(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(::dirname(str));
-	free(str);
-	return res;
+	/* ::dirname() modifies its argument */
+	std::string str(path.c_str());
+	return std::string(::dirname(&str[0]));
 }
 
 /* libgen.h redefine basename to __xpg_basename, if we want to have the correct
@@ -66,10 +65,9 @@ static char *wrap_basename(char *path)
 
 std::string basename(const std::string &path)
 {
-	char *str = strdup(path.c_str());
-	std::string res(wrap_basename(str));
-	free(str);
-	return res;
+	/* ::basename() modifies its argument */
+	std::string str(path.c_str());
+	return std::string(wrap_basename(&str[0]));
 }
 
 }
-- 
2.43.0


From 67aa029a5770adf1b46923b963a117b095401a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 24/25] fix: dynmbox: blocking push timeouts do not depend on
 system time changes

The deadline was computed from, and compared with, the real time clock: setting
the system time while a push is blocked (time_local_set() for instance) made it
time out at once, or much too late. Use the monotonic clock.
---
 src/dynmbox.c | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index a909dc2..56baa54 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -78,6 +78,41 @@ struct dynmbox {
 	pthread_cond_t cond;
 };
 
+/* Initialize the condition; its timeouts must not depend on changes of the
+ * system time where that can be avoided, see get_cond_time() */
+static int init_cond(pthread_cond_t *cond)
+{
+	int res;
+	pthread_condattr_t attr;
+
+	res = pthread_condattr_init(&attr);
+	if (res)
+		return -res;
+#ifdef __linux__
+	res = pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+#endif
+	if (!res)
+		res = pthread_cond_init(cond, &attr);
+	pthread_condattr_destroy(&attr);
+	return -res;
+}
+
+/* Get the current time of the clock used by the condition */
+static int get_cond_time(struct timespec *ts)
+{
+#ifdef __linux__
+	return time_get_monotonic(ts);
+#else
+	int res;
+	struct timeval tv_now;
+
+	res = gettimeofday(&tv_now, NULL);
+	if (res)
+		return -errno;
+	return time_timeval_to_timespec(&tv_now, ts);
+#endif
+}
+
 #ifdef _WIN32
 static int wsa2errno(void)
 {
@@ -320,11 +355,16 @@ struct dynmbox *dynmbox_new(size_t max_msg_size)
 
 	/* mutex + cond */
 	pthread_mutex_init(&box->lock, NULL);
-	pthread_cond_init(&box->cond, NULL);
+	ret = init_cond(&box->cond);
+	if (ret)
+		goto fail_cond;
 
 	box->max_msg_size = max_msg_size;
 	return box;
 
+fail_cond:
+	pthread_mutex_destroy(&box->lock);
+	destroy_notify_channel(box);
 fail_notify_channel:
 	free(box->bufmem);
 fail_bufmem:
@@ -545,7 +585,6 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		size_t msg_size, unsigned int timeout_ms)
 {
 	int res;
-	struct timeval tv_now;
 	struct timespec ts_now;
 	struct timespec ts_abs;
 
@@ -553,13 +592,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 		return -EINVAL;
 
 	if (timeout_ms > 0) {
-		res = gettimeofday(&tv_now, NULL);
+		res = get_cond_time(&ts_now);
 		if (res) {
-			res = -errno;
-			ULOG_ERRNO("gettimeofday()", -res);
+			ULOG_ERRNO("get_cond_time()", -res);
 			return res;
 		}
-		time_timeval_to_timespec(&tv_now, &ts_now);
 		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
 				&ts_abs);
 	}
-- 
2.43.0


From 9db17544d0ea02168b29f349504ba52da96b6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 25/25] fix: dynmbox: keep the read fd readable when
 notifications do not fit in the pipe

The capacity of a pipe may be as small as one or two pages (limits of
pipe(7) on the pages of a user), while up to 16384 messages can be
queued. The notifications which did not fit were lost, and the read fd
was no longer readable while the last messages were still pending.
---
 src/dynmbox.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 56baa54..f6df499 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -66,6 +66,9 @@ struct dynmbox {
 #else
 	/* pipes fds */
 	int fds[2];
+	/* number of queued messages whose notification did not fit in the
+	 * pipe, whose capacity may be small (see pipe(7)) */
+	size_t unnotified;
 #endif
 	/* message size */
 	size_t max_msg_size;
@@ -310,8 +313,11 @@ static void push_notify(struct dynmbox *box)
 	const uint8_t dummy = 0x55;
 	ssize_t done;
 	done = write(box->fds[1], &dummy, sizeof(dummy));
-	if (done == -1)
-		ULOG_ERRNO("write() to pipe", errno);
+	if (done == -1) {
+		box->unnotified++;
+		if (errno != EAGAIN)
+			ULOG_ERRNO("write() to pipe", errno);
+	}
 }
 
 static void pop_notify(struct dynmbox *box)
@@ -321,6 +327,13 @@ static void pop_notify(struct dynmbox *box)
 	done = read(box->fds[0], &val, sizeof(val));
 	if (done == -1)
 		ULOG_ERRNO("read() from pipe", errno);
+
+	/* Write a notification which did not fit: the read fd must remain
+	 * readable as long as there is a message */
+	if (box->unnotified > 0) {
+		box->unnotified--;
+		push_notify(box);
+	}
 }
 #endif
 
-- 
2.43.0

