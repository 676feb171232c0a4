From b9be011fb3ad0a61879ab2734eae0b150afefa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 01/36] fix: heap: a failed sc_heap_add() must not change the
 size

---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From e3610d21219741eaada0e62ff1bd0a39067f7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 02/36] fix: map: refuse an initial capacity whose power of two
 does not fit

---
 map/sc_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..1d460d4 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -107,6 +107,10 @@
 		}                                                              \
 		v++;                                                           \
                                                                                \
+		if (v == 0) { /* Next power of two does not fit */             \
+			return NULL;                                           \
+		}                                                              \
+                                                                               \
 		*cap = v;                                                      \
 		t = sc_map_calloc(v + 1, sizeof(*t));                          \
 		return t ? &t[1] : NULL;                                       \
-- 
2.43.0


From 6450ae448a73ec477f86a66bcb1332922fdeb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 03/36] fix: queue: an add works again after an earlier add ran
 out of memory

---
 queue/sc_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..9af4c38 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -68,6 +68,8 @@
 		size_t _pos = ((q)->last + 1) & ((q)->cap - 1);                \
 		void *_dst, *_src;                                             \
                                                                                \
+		/* Forget earlier failures, unless there is no memory at all */\
+		(q)->oom = ((q)->elems == NULL);                               \
 		if (_pos == (q)->first) {                                      \
 			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \
 				(q)->oom = true;                               \
-- 
2.43.0


From 9a10d761ce50c491bef01c2f8dab463d8faf6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 04/36] fix: string: replacing an empty string must not loop
 forever

---
 string/sc_str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4d378b9..c4db527 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -371,6 +371,11 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 		return false;
 	}
 
+	// Empty string matches everywhere, there is nothing to replace.
+	if (rep_len == 0) {
+		return true;
+	}
+
 	meta = sc_str_meta(*str);
 	orig = *str;
 	orig_end = *str + meta->len;
-- 
2.43.0


From bdfa88f13c769590466fa373872bbcfe533c8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 05/36] fix: buffer: position and length checks must not
 overflow

---
 buffer/sc_buf.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..ab735d7 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -39,6 +39,12 @@
 
 #define NULL_LEN SC_BUF_MAX
 
+// Check if [pos, pos + len) is in [0, end), 'pos' and 'len' might be arbitrary.
+static bool sc_buf_in_range(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return pos <= end && len <= end - pos;
+}
+
 bool sc_buf_init(struct sc_buf *b, uint64_t cap)
 {
 	void *m = NULL;
@@ -253,7 +259,7 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +275,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +293,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +312,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +331,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +346,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +364,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +384,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +458,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +512,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +591,8 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len == UINT64_MAX ||
+	    !sc_buf_in_range(b->rpos, len + 1, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +611,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_in_range(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +624,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_in_range(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From cc4545b9c4de9590c729cd5a36564242058ee2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 06/36] fix: buffer: reserving a huge length must fail, not
 overflow

---
 buffer/sc_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index ab735d7..c6fc0b8 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -107,8 +107,8 @@ bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
-		if (b->ref) {
+	if (!sc_buf_in_range(b->wpos, len, b->cap)) {
+		if (b->ref || len > UINT64_MAX - 4095 - b->cap) {
 			goto err;
 		}
 
-- 
2.43.0


From 1db3d81feeb6c5f5793389d8912da9a1d174e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 07/36] fix: buffer: sc_buf_put_fmt() must reserve space for
 the terminator

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index c6fc0b8..4e74c2f 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -751,7 +751,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {
 			return;
 		}
 
-- 
2.43.0


From 2098562b78371e1df950b3ecd8f3b9cb18397821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 08/36] fix: buffer: don't reallocate the memory of a reference
 buffer on shrink

---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 4e74c2f..0fb7d9b 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -139,7 +139,8 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 
 	sc_buf_compact(b);
 
-	if (len > b->cap || b->wpos >= len) {
+	// Memory of a reference buffer is not ours, it can't be reallocated.
+	if (b->ref || len > b->cap || b->wpos >= len) {
 		return true;
 	}
 
-- 
2.43.0


From 118bad505b1f16138439bc89008e33d2026a2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 09/36] fix: timer: a timeout near 2^64 must not overflow into
 an early deadline

---
 timer/sc_timer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 81e02e9..febbfb2 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -119,6 +119,11 @@ uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 	uint64_t id;
 	uint32_t seq, index, wheel_pos;
 
+	// Far in the future, don't let deadline overflow (or be 'invalid').
+	if (timeout >= SC_TIMER_INVALID - t->timestamp) {
+		timeout = SC_TIMER_INVALID - 1 - t->timestamp;
+	}
+
 	wheel_pos = (pos * t->wheel);
 	for (seq = 0; seq < t->wheel; seq++) {
 		index = wheel_pos + seq;
-- 
2.43.0


From 0d67602379171bb9ceebd930608b11195ea0d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 10/36] fix: thread: a failed start must leave nothing to join
 and return -1

---
 thread/sc_thread.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 7dd1db1..8176a69 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -135,6 +135,9 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 	rc = pthread_create(&t->id, &attr, fn, arg);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		// Content of id is undefined on failure, make join a no-op.
+		t->id = 0;
+		rc = -1;
 	}
 
 	// This may only fail with EINVAL.
-- 
2.43.0


From cfb5fade43d4b116b860e60cf4dd5792fe87d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 11/36] fix: logger: the size limit of the log file must count
 line headers

---
 logger/sc_log.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bd5da24..244198a 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -349,7 +349,7 @@ static int sc_log_print_header(FILE *fp, enum sc_log_level level)
 		return -1;
 	}
 
-	return 0;
+	return rc;
 }
 
 static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
@@ -372,10 +372,10 @@ static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
 
 static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 {
-	int rc, size;
+	int header, size;
 
-	rc = sc_log_print_header(sc_log.fp, level);
-	if (rc < 0) {
+	header = sc_log_print_header(sc_log.fp, level);
+	if (header < 0) {
 		return -1;
 	}
 
@@ -384,7 +384,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		return -1;
 	}
 
-	sc_log.file_size += size;
+	sc_log.file_size += (size_t) header + (size_t) size;
 
 	if (sc_log.file_size > (size_t) SC_LOG_FILE_SIZE) {
 		fclose(sc_log.fp);
@@ -398,7 +398,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		sc_log.file_size = 0;
 	}
 
-	return rc;
+	return 0;
 }
 
 int sc_log_log(enum sc_log_level level, const char *fmt, ...)
-- 
2.43.0


From fceff8c888bb05fb9e71f7b149dd27a5a8808d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 12/36] fix: logger: report a rotation that could not flush or
 keep the old file

---
 logger/sc_log.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index 244198a..bdce173 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -372,7 +372,7 @@ static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
 
 static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 {
-	int header, size;
+	int rc = 0, header, size;
 
 	header = sc_log_print_header(sc_log.fp, level);
 	if (header < 0) {
@@ -387,8 +387,13 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 	sc_log.file_size += (size_t) header + (size_t) size;
 
 	if (sc_log.file_size > (size_t) SC_LOG_FILE_SIZE) {
-		fclose(sc_log.fp);
-		(void) rename(sc_log.current_file, sc_log.prev_file);
+		if (fclose(sc_log.fp) != 0) {
+			rc = -1;
+		}
+
+		if (rename(sc_log.current_file, sc_log.prev_file) != 0) {
+			rc = -1;
+		}
 
 		sc_log.fp = fopen(sc_log.current_file, "w+");
 		if (sc_log.fp == NULL) {
@@ -398,7 +403,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		sc_log.file_size = 0;
 	}
 
-	return 0;
+	return rc;
 }
 
 int sc_log_log(enum sc_log_level level, const char *fmt, ...)
-- 
2.43.0


From 961ada2a6744f7795634677ad2c66870661083d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 13/36] fix: signal: don't write to a buffer of size zero

---
 signal/sc_signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 030ac75..46487e3 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -103,7 +103,9 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 		switch (*pos) {
 		case '\0': {
-			*out = '\0';
+			if (sz != 0) {
+				*out = '\0';
+			}
 			return (int) (out - buf);
 		}
 		case '%': {
-- 
2.43.0


From d85f884a2bd41c831005e484dc4a6718eb13e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 14/36] fix: signal: don't write past the buffer after an
 unsupported conversion

---
 signal/sc_signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 46487e3..2fb6339 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -526,6 +526,10 @@ void sc_signal_log(int fd, char *buf, size_t sz, char *fmt, ...)
 	wr = sc_signal_vsnprintf(buf, sz, fmt, args);
 	va_end(args);
 
+	if (wr < 0) {
+		return;
+	}
+
 	rc = (int) write(fd, buf, (size_t) wr);
 	(void) rc;
 }
-- 
2.43.0


From 7e1e3c5da9036193536e94f3508997126458a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 15/36] fix: signal: SIGINT and SIGTERM handlers must not
 interrupt each other

---
 signal/sc_signal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 2fb6339..1622f3d 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -487,7 +487,10 @@ int sc_signal_init(void)
 
 	rc &= (signal(SIGHUP, SIG_IGN) != SIG_ERR);
 	rc &= (signal(SIGPIPE, SIG_IGN) != SIG_ERR);
+	// Handlers of shutdown signals must not interrupt each other.
 	rc &= (sigemptyset(&action.sa_mask) == 0);
+	rc &= (sigaddset(&action.sa_mask, SIGTERM) == 0);
+	rc &= (sigaddset(&action.sa_mask, SIGINT) == 0);
 
 	action.sa_flags = 0;
 	action.sa_handler = sc_signal_on_shutdown;
-- 
2.43.0


From 209cac096d65a9af732fee9ca1757beabcbc956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 16/36] fix: mmap: sync the whole range when it doesn't start
 at a page boundary

---
 memory-map/sc_mmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory-map/sc_mmap.c b/memory-map/sc_mmap.c
index 249ed64..3fc828f 100644
--- a/memory-map/sc_mmap.c
+++ b/memory-map/sc_mmap.c
@@ -316,9 +316,10 @@ int sc_mmap_term(struct sc_mmap *m)
 int sc_mmap_msync(struct sc_mmap *m, size_t offset, size_t len)
 {
 	int rc;
-	char *p = (char *) m->ptr + (offset & ~(m->page_size - 1));
+	size_t diff = offset & (m->page_size - 1);
+	char *p = (char *) m->ptr + (offset - diff);
 
-	rc = msync(p, len, MS_SYNC);
+	rc = msync(p, len + diff, MS_SYNC);
 	if (rc != 0) {
 		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
 	}
-- 
2.43.0


From 0de5f982b4eb0f9e60b1dfc237b863dc5c0ca272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 17/36] fix: ini: cut long lines of a file instead of splitting
 them

---
 ini/sc_ini.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ini/sc_ini.c b/ini/sc_ini.c
index c0901b7..ed2a76b 100644
--- a/ini/sc_ini.c
+++ b/ini/sc_ini.c
@@ -141,7 +141,25 @@ int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
 
 static char *file_line(void *p, char *buf, size_t size)
 {
-	return fgets(buf, (int) size, (FILE *) p);
+	int c;
+
+	// 'buf' has room for 'size' characters and the terminator.
+	if (fgets(buf, (int) size + 1, (FILE *) p) == NULL) {
+		return NULL;
+	}
+
+	// Truncate if the line is too long, next call must not see the rest.
+	if (strlen(buf) == size && buf[size - 1] != '\n') {
+		do {
+			c = fgetc((FILE *) p);
+		} while (c != EOF && c != '\n');
+
+		if (ferror((FILE *) p)) {
+			return NULL;
+		}
+	}
+
+	return buf;
 }
 
 static char *string_line(void *p, char *buf, size_t size)
-- 
2.43.0


From 67d562821cc4bbf6a71ea0fc2722c4c25bcf28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 18/36] fix: socket: timeouts in milliseconds must not lose the
 fraction of a second

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f44d7c2..f5ca0a2 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -281,7 +281,7 @@ int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
@@ -301,7 +301,7 @@ int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
-- 
2.43.0


From 240354f074e66418f31e81b0d09a6d6714ff2842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 19/36] fix: socket: unix sockets must get the blocking mode
 asked for

---
 socket/sc_sock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f5ca0a2..9183db3 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -349,6 +349,11 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 
 		s->fdt.fd = fd;
 
+		rc = sc_sock_set_blocking(s, s->blocking);
+		if (rc != 0) {
+			goto error_unix;
+		}
+
 		rc = sc_sock_bind_unix(s, host);
 		if (rc != 0) {
 			goto error_unix;
@@ -465,6 +470,11 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 
 	strcpy(un.sun_path, addr);
 
+	rc = sc_sock_set_blocking(s, s->blocking);
+	if (rc != 0) {
+		goto err;
+	}
+
 	rc = connect(s->fdt.fd, (struct sockaddr *) &un, sizeof(un));
 	if (rc != 0) {
 		goto err;
-- 
2.43.0


From 4f855fb0bcba3aa293a8edc146c021c652a0b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 20/36] fix: socket: the address of an unnamed unix socket must
 not be stack garbage

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 9183db3..30a9268 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -825,7 +825,7 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getsockname(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
@@ -841,7 +841,7 @@ const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 const char *sc_sock_remote_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getpeername(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
-- 
2.43.0


From 3fefcaf3931bd2c6a9ea8995b6df2e183aff99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 21/36] fix: socket: refuse to listen on a unix path that does
 not fit

---
 socket/sc_sock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 30a9268..bb56a77 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -322,6 +322,11 @@ static int sc_sock_bind_unix(struct sc_sock *s, const char *host)
 		.sun_family = AF_UNIX,
 	};
 
+	if (strlen(host) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	strncpy(addr.sun_path, host, sizeof(addr.sun_path) - 1);
 	sc_unlink(host);
 
-- 
2.43.0


From 6f60ab5948842cdbc9df19f32f9c4a380745ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 22/36] fix: socket: a failed connect must not change the
 family of the socket

---
 socket/sc_sock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index bb56a77..d57077f 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -616,6 +616,7 @@ error:
 	sc_sock_errstr(s, 0);
 bind_error:
 	rv = -1;
+	s->family = family;
 	sc_sock_close(s);
 end:
 	freeaddrinfo(sinfo);
-- 
2.43.0


From 8eb713c351af23fc6e0235d7c6dd50884dc3cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 23/36] fix: socket: refuse a systemd notify socket name that
 does not fit

---
 socket/sc_sock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index d57077f..d3e73c0 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -177,6 +177,11 @@ int sc_sock_notify_systemd(const char *msg)
 		return -1;
 	}
 
+	if (strlen(s) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	fd = socket(AF_UNIX, SOCK_DGRAM, 0);
 	if (fd < 0) {
 		return -1;
-- 
2.43.0


From 887ab28dc3428345ea3f862afb9cc6fb15bbfc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 24/36] fix: socket: interruptions must not extend the timeout
 of a poll

---
 socket/sc_sock.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index d3e73c0..f407f8e 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -134,6 +134,7 @@ int sc_sock_notify_systemd(const char *msg)
 #include <netinet/tcp.h>
 #include <sys/time.h>
 #include <sys/un.h>
+#include <time.h>
 #include <unistd.h>
 
 #define sc_close(n) close(n)
@@ -1316,9 +1317,19 @@ uint32_t sc_sock_poll_event(struct sc_sock_poll *p, int i)
 	return ev;
 }
 
+// Monotonic time in nanoseconds
+static int64_t sc_sock_poll_now(void)
+{
+	struct timespec ts;
+
+	clock_gettime(CLOCK_MONOTONIC, &ts);
+	return (int64_t) ts.tv_sec * 1000000000 + ts.tv_nsec;
+}
+
 int sc_sock_poll_wait(struct sc_sock_poll *p, int timeout)
 {
 	int n;
+	int64_t left, end = 0;
 	struct epoll_event *events = p->events;
 
 	if (events == NULL) {
@@ -1326,9 +1337,22 @@ int sc_sock_poll_wait(struct sc_sock_poll *p, int timeout)
 		return -1;
 	}
 
-	do {
+	if (timeout > 0) {
+		end = sc_sock_poll_now() + (int64_t) timeout * 1000000;
+	}
+
+	while (1) {
 		n = epoll_wait(p->fds, events, SC_SOCK_POLL_MAX_EVENTS, timeout);
-	} while (n < 0 && errno == EINTR);
+		if (n >= 0 || errno != EINTR) {
+			break;
+		}
+
+		// Interrupted, wait only for the remaining time.
+		if (timeout > 0) {
+			left = end - sc_sock_poll_now();
+			timeout = left > 0 ? (int) ((left + 999999) / 1000000) : 0;
+		}
+	}
 
 	if (n == -1) {
 		sc_sock_poll_set_err(p, "epoll_wait : %s ", strerror(errno));
-- 
2.43.0


From 3ab4c11035d9166c5f460c58599c4710d71abad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 25/36] fix: perf: scale a multiplexed counter up, not down

---
 perf/sc_perf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 14a8320..777d58f 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -129,7 +129,8 @@ static void sc_read(struct sc_perf_item *items, size_t size)
 			items[i].active = n;
 		}
 
-		items[i].value += (double) fmt.value * n;
+		// Estimate the total if it was counted only for a part of it
+		items[i].value += (double) fmt.value / n;
 	}
 }
 
-- 
2.43.0


From 794cf4d7629062f16cfa1612fabacc8b04265aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 26/36] fix: perf: starting twice must not lose the time
 measured so far

---
 perf/sc_perf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 777d58f..19ab067 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -170,6 +170,10 @@ void sc_perf_start(void)
 		init = 1;
 	}
 
+	if (running) {
+		return;
+	}
+
 	sc_perf_assert(prctl(PR_TASK_PERF_EVENTS_ENABLE) == 0);
 
 	start = sy_time_nano();
-- 
2.43.0


From 91d195fd9dfea6ecdd877810d3c9d9d6396767da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 27/36] fix: buffer: a put_text that fails must not leave the
 read position beyond the end

---
 buffer/sc_buf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 0fb7d9b..e428c60 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -818,6 +818,8 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	return;
 
 clean_up:
+	// Read position must not stay beyond the write position.
+	sc_buf_set_rpos(b, 0);
 	sc_buf_set_wpos(b, 0);
 }
 
-- 
2.43.0


From b471b042fd5fa9e020b876b18f5ee6925af492ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 28/36] fix: report why connect failed, not why the close after
 it did

---
 socket/sc_sock.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f407f8e..7f64df5 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -543,7 +543,7 @@ int sc_sock_connect(struct sc_sock *s, const char *dst_addr,
 		    const char *src_port)
 {
 	int family = s->family;
-	int rc, rv = 0;
+	int rc, saved, rv = 0;
 	sc_sock_int fd;
 	void *tmp;
 	struct addrinfo *sinfo = NULL, *p;
@@ -610,7 +610,10 @@ int sc_sock_connect(struct sc_sock *s, const char *dst_addr,
 					goto end;
 				}
 
+				// Keep the reason, even if close() fails.
+				saved = errno;
 				sc_sock_close(s);
+				errno = saved;
 				continue;
 			}
 
-- 
2.43.0


From 1a2c6811283465625947dcc406546899c2ca190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 29/36] fix: cond: a failing term must return a negative value
 as documented

---
 condition/sc_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/condition/sc_cond.c b/condition/sc_cond.c
index d332c40..239536a 100644
--- a/condition/sc_cond.c
+++ b/condition/sc_cond.c
@@ -168,7 +168,7 @@ int sc_cond_term(struct sc_cond *c)
 
 	c->init = false;
 
-	return errno;
+	return errno != 0 ? -1 : 0;
 }
 
 void sc_cond_signal(struct sc_cond *c, void *data)
-- 
2.43.0


From f57b56d40e92fc1f0f0ad832c93e7d0369a0bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 30/36] fix: thread: a failing join must return -1 as
 documented

---
 thread/sc_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 8176a69..1df5baa 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -158,6 +158,7 @@ int sc_thread_join(struct sc_thread *t, void **ret)
 	rc = pthread_join(t->id, &val);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		rc = -1;
 	}
 
 	t->id = 0;
-- 
2.43.0


From 211c5b45c8d8bb6a1f38713ef7fc9b1a7e8c7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 31/36] fix: notify_systemd: errno must tell why sending
 failed, not why close did

---
 socket/sc_sock.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 7f64df5..0d3ed31 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -149,7 +149,7 @@ int sc_sock_notify_systemd(const char *msg)
 {
 	assert(msg != NULL);
 
-	int fd, rc;
+	int fd, rc, saved;
 	const char *s;
 
 	struct sockaddr_un addr = {
@@ -200,7 +200,10 @@ int sc_sock_notify_systemd(const char *msg)
 
 	rc = (int) sendmsg(fd, &msghdr, MSG_NOSIGNAL);
 
+	// Keep the reason, even if close() fails.
+	saved = errno;
 	close(fd);
+	errno = saved;
 
 	return rc < 0 ? -1 : 0;
 }
-- 
2.43.0


From 61b5f72a7f6e08eb3e11ba75c0e33fdbf97dd330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 32/36] fix: array: deleting at an index held in a variable
 named 'idx' must use it

sc_array_del() and sc_array_del_unordered() declared a local 'idx' that hid
the caller's variable of that name, so 'sc_array_del(&arr, idx)' read an
uninitialized value and deleted some other element.
---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..959445f 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - (_idx) - 1;                    \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From bac34a0c7fb6dc9ae4ff2e5fd929d2bedb55e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 33/36] fix: array: add must evaluate the element before it
 changes the size

'sc_array_add(&arr, sc_array_last(&arr))' read and changed the size without
a sequence point in between and could add the stale content of the new slot.
---
 array/sc_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index 959445f..b8a6555 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -108,7 +108,8 @@
 			(a)->elems = _p;                                       \
 		}                                                              \
 		(a)->oom = false;                                              \
-		(a)->elems[(a)->size++] = k;                                   \
+		(a)->elems[(a)->size] = k;                                     \
+		(a)->size++;                                                   \
 	} while (0)
 
 /**
-- 
2.43.0


From 8f4a20dccbbda6fb7204b7ccb63ae79f48e0e4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 34/36] fix: queue: add_first must evaluate the element before
 it moves the head

'sc_queue_add_first(&q, sc_queue_peek_first(&q))' added the stale content of
the new slot, as the head had been moved already.
---
 queue/sc_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index 9af4c38..b8b1dce 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -237,8 +237,8 @@
 			break;                                                 \
 		}                                                              \
 		(q)->oom = false;                                              \
+		(q)->elems[((q)->first - 1) & ((q)->cap - 1)] = elem;          \
 		(q)->first = ((q)->first - 1) & ((q)->cap - 1);                \
-		(q)->elems[(q)->first] = elem;                                 \
 	} while (0)
 
 static inline size_t sc_queue_inc_first(size_t *first, size_t cap)
-- 
2.43.0


From 477c488169a4d37bedc3768ab513bbabaf2fa38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 35/36] fix: string: sc_str_append_fmt must dereference its
 whole argument

'sc_str_append_fmt(strs + 1, ...)' appended to '*strs + 1', a part of another
string, instead of to strs[1].
---
 string/sc_str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/sc_str.h b/string/sc_str.h
index d7984ce..0d7f4b2 100644
--- a/string/sc_str.h
+++ b/string/sc_str.h
@@ -132,7 +132,7 @@ bool sc_str_append(char **str, const char *text);
  * @return    'true' on success, 'false' on out of memory or if '*str' is NULL.
  */
 #define sc_str_append_fmt(str, fmt, ...)                                       \
-	((*str) ? (sc_str_set_fmt(str, "%s" fmt, *str, __VA_ARGS__)) :         \
+	((*(str)) ? (sc_str_set_fmt(str, "%s" fmt, *(str), __VA_ARGS__)) :     \
 			(sc_str_set_fmt(str, fmt, __VA_ARGS__)))
 
 /**
-- 
2.43.0


From 33500119a4d818c7910c3e6befb0f865eb81a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:23 +0000
Subject: [PATCH 36/36] fix: two threads handling shutdown signals at once must
 not both request shutdown

---
 signal/sc_signal.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 1622f3d..ddf42cd 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -398,13 +398,13 @@ static void sc_signal_on_shutdown(int sig)
 
 	sc_signal_log(fd, buf, sizeof(buf), "Recv : %s, (%d) \n", str, sig);
 
-	if (sc_signal_will_shutdown != 0) {
+	// Another thread may handle a shutdown signal at the same time.
+	if (__atomic_exchange_n(&sc_signal_will_shutdown, 1,
+				__ATOMIC_SEQ_CST) != 0) {
 		sc_signal_log(fd, buf, sizeof(buf), "Forcing shut down! \n");
 		sc_exit(1);
 	}
 
-	sc_signal_will_shutdown = 1;
-
 	if (sc_signal_shutdown_fd != -1) {
 		sc_signal_log(fd, buf, sizeof(buf),
 			      "Sending shutdown command. \n");
-- 
2.43.0

