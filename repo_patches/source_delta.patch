From 41713b85203b5bfbfb5d006b7a3efc9ebcc9d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 01/39] fix: stringptr_fromfile: don't spin when the file
 shrinks while reading

read() returning 0 before the stat'ed size was reached made the loop
run forever. treat it like a read error.
---
 src/stringptr/stringptr_fromfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..ebfbac8 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -24,7 +24,7 @@ stringptr* stringptr_fromfile(char* filename) {
 
 	while(bufpos < size) {
 		bytesleft = size - bufpos;
-		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) < 0) {
+		if((bread = read(f, buf->ptr + bufpos, bytesleft > 64*1024 ? 64*1024 : bytesleft)) <= 0) {
 			stringptr_free(buf);
 			buf = NULL;
 			goto FEXIT;
-- 
2.43.0


From f2eda3df52bbe37634a4dc4a01f5b493874dfc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 02/39] fix: fileparser_readline_userbuf: don't split lines at
 short reads

a short read without a newline was delivered as if it was the last line
of the file, and the next call skipped a byte.
---
 src/fileparser/fileparser_readline_userbuf.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fileparser/fileparser_readline_userbuf.c b/src/fileparser/fileparser_readline_userbuf.c
index 9596076..49b7429 100644
--- a/src/fileparser/fileparser_readline_userbuf.c
+++ b/src/fileparser/fileparser_readline_userbuf.c
@@ -5,9 +5,17 @@ int fileparser_readline_userbuf(fileparser* parser, char* buf, size_t bufsize) {
 	size_t found = 0;
 	ssize_t ret;
 	if(!parser || !parser->file) return -1;
-	if(!(ret = read(parser->file, buf, bufsize))) return -2;
-	if(ret == -1) return errno;
-	parser->len = (size_t) ret;
+	parser->len = 0;
+	/* a short read doesn't mean that the line ends there */
+	do {
+		if((ret = read(parser->file, buf + parser->len, bufsize - parser->len)) == -1) {
+			int err = errno;
+			lseek(parser->file, (off_t) parser->fpos, SEEK_SET);
+			return err;
+		}
+		parser->len += (size_t) ret;
+	} while(ret && parser->len < bufsize && !memchr(buf + parser->len - ret, '\n', (size_t) ret));
+	if(!parser->len) return -2;
 	for(i = 0; i < parser->len; i++) {
 		if(buf[i] == '\n') {
 			found = 1;
-- 
2.43.0


From e070dea63c1cdeb2371bdca63605732ca46d6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 03/39] fix: fileparser_getnextlinelength: always restore the
 read position

after an error the position was left in the middle of the line. also
return the right length for a last line without newline that is an exact
multiple of the buffer size.
---
 src/fileparser/fileparser_getnextlinelength.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..ab81909 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -7,10 +7,11 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 	while((ret = fileparser_readline(parser)) == -3) {
 		res += sizeof(parser->buf);
 		parser->fpos += sizeof(parser->buf);
-		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) break;
 	}
-	if(ret != 0) return -1;
-	res += parser->len;
+	if(ret == 0) res += parser->len;
+	/* EOF right after full buffers: last line without newline */
+	else if(ret != -2 || !res) res = -1;
 	parser->fpos = store_fpos;
 	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
 	return res;
-- 
2.43.0


From b5215efbf9427eff6258e991eabe49ebf599b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 04/39] fix: stringptrlist_fromfile: don't report success for
 partial reads

an empty line, a read error or an overlong line ended the loop early and
the function still returned success.
---
 src/stringptrlist/stringptrlist_fromfile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..ef50b0f 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,12 +4,13 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int success = 0, ret;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
+	while(!(ret = fileparser_readline(&f)) && !fileparser_getline(&f, &line)) {
 		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
-	success = 1;
+	/* anything but EOF means that lines are missing */
+	success = ret == -2;
 	ferr:
 	fileparser_close(&f);
 	err:
-- 
2.43.0


From d2860586532f6b5b2ce59d131f12844b03ae7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 05/39] fix: stringptrlist_add_strdup: free the copy if it
 can't be added

---
 src/stringptrlist/stringptrlist_add_strdup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..c926d5f 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,7 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(stringptrlist_add(l, nu, stringptr_getsize(s))) return 1;
+	free(nu);
+	return 0;
 }
-- 
2.43.0


From 51dc2c69d46f0e11fab77582accd90c44a8cc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 06/39] fix: sblist_free_values: free the stored pointers, not
 the list's slots

---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..dda388d 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**) sblist_get(l, i));
 }
-- 
2.43.0


From 23457d4eabaa81012a6172022ab7706b3817354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 07/39] fix: sblist: grow lists whose blockitems is 0

sblist_new_from_data() documents blockitems 0 as growing by a page, and
sblist_init() computes 0 for items larger than a page; both made the next
addition write past the end of the buffer.
---
 src/sblist/sblist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..a5c38a3 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -58,9 +58,11 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		size_t n = l->blockitems ? l->blockitems : MY_PAGE_SIZE / l->itemsize;
+		if(!n) n = 1;
+		temp = realloc(l->items, (l->capa + n) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += n;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From e68252500f96114f0d479c07a774cc7262bc4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 08/39] fix: tlist_get: return NULL for an index past the end

---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From 6dd31c4211796b2f495f5fde906c272c03fd5231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 09/39] fix: tlist deep variants: free the stored pointer, not
 the node's interior

---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..a24e3a2 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**)data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From b6066db5f0655582512487d53ebc55c43fd0fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 10/39] fix: hashlist_add: return -1 on error as documented

---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From a31f186c2b3203fbd368f285e5a6730a1c9b89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 11/39] fix: bmap_insert: report failure if the value can't be
 stored

---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..e066a6d 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		( bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From e45995889c375d401b470c5a95bd7583e2c68b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:18 +0000
Subject: [PATCH 12/39] fix: hashlist_next: don't stop at an empty bucket

A failed addition can leave an empty bucket list behind; iteration ended
there and never visited the entries of later buckets.
---
 src/hashlist/hashlist_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..5e28c01 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -19,7 +19,7 @@ void hashlist_iterator_init(hashlist_iterator* iter) {
 void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	if(iter->bucket_iter.pos >= (ssize_t) h->bucketcount) return NULL;
 	iter->pos++;
-	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
+	while(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
 		iter->pos = 0;
 		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
 	}
-- 
2.43.0


From 4b68c017f3753419758ce95718ade00354b33767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 13/39] fix: stringptr_copy: check for allocation failure

---
 src/stringptr/stringptr_copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..133d80c 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,7 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
+	if(!result) return NULL;
 	memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From 4826b5a227333fefee27fdb02dba4ebb6f0caeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:43 +0000
Subject: [PATCH 14/39] fix: stringptr_splitc/splits: fail if a part can't be
 added

On allocation failure parts were silently missing from the result.
---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..60b413a 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..9015db8 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || stringptr_here(buf, i, delim)) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			i += delim->size;
-- 
2.43.0


From 4786da39b587b29f17a742025d546ea24a8f863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:44 +0000
Subject: [PATCH 15/39] fix: stringptr_replace: free the list of parts
 completely

The item array was leaked by every call, and the list itself if the
result couldn't be allocated.
---
 src/stringptrlist/stringptr_replace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..06aeed5 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) goto done;
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +21,8 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		done:
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From 5f1f332103f07398c8dc3f367bf126bebdea2e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:44 +0000
Subject: [PATCH 16/39] fix: read_stdin_line: chomp only newlines

The last character of an unterminated last line, or of a line that fills
the buffer, was cut off.
---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From 1a0180a5ed0e39251b419a86abd45fded71a9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:15 +0000
Subject: [PATCH 17/39] fix: stringptr_format: report failure instead of a
 truncated or bogus result

Results longer than 999 bytes were cut off, a failed conversion was
returned as success with size (size_t) -1, and a NULL format leaked the
buffer. Measure first, then allocate what is needed.
---
 src/stringptr/stringptr_format.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/stringptr/stringptr_format.c b/src/stringptr/stringptr_format.c
index 42293a5..6dab2dd 100644
--- a/src/stringptr/stringptr_format.c
+++ b/src/stringptr/stringptr_format.c
@@ -4,12 +4,16 @@
 #include <stdarg.h>
 
 stringptr* stringptr_format(char* fmt, ...) {
-	const size_t BUF_SIZE = 1000;
-	stringptr* result = stringptr_new(BUF_SIZE);
-	if(!result || !fmt) return NULL;
+	stringptr* result;
+	ssize_t len;
 	va_list ap;
+	if(!fmt) return NULL;
 	va_start(ap, fmt);
-	result->size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
+	len = ulz_vsnprintf(NULL, 0, fmt, ap);
+	va_end(ap);
+	if(len < 0 || !(result = stringptr_new(len))) return NULL;
+	va_start(ap, fmt);
+	ulz_vsnprintf(result->ptr, len + 1, fmt, ap);
 	va_end(ap);
 	return result;
 }
-- 
2.43.0


From 5fcbef2c3a517ec7a36b36691f87628bb2b45868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:24 +0000
Subject: [PATCH 18/39] fix: filelist_search: don't use a compound literal
 outside its scope

the literal created by SPL() lives until the end of the if statement's
substatement, but dir was read afterwards when no directory was given.
---
 src/filelist/filelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index d0de34c..89b5cd2 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -36,10 +36,11 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	int ret;
 	size_t i;
 	stringptr temp, *s = &temp;
+	stringptr cwd = SPINITIALIZER("./");
 	int isdir;
 	int defaultflags = (flags & FLF_INCLUDE_HIDDEN) ? GLOB_PERIOD : 0;
 
-	if(!dir || !dir->size) dir = SPL("./");
+	if(!dir || !dir->size) dir = &cwd;
 
 	if(!l || !mask || !mask->size || mask->size + dir->size + (dir->ptr[dir->size -1] != '/') + 1U > sizeof(buf)) return -1;
 	i = cpystr_escape(buf, dir->ptr, dir->size);
-- 
2.43.0


From 64a819a5f1fac4cc9e95140e953314d505d6e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 19/39] fix: filelist_search: escape backslashes in the
 directory name

glob takes a backslash as an escape character, so directories with one in
their name were not found, or another directory was searched instead.
---
 src/filelist/filelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 89b5cd2..872df9d 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -13,7 +13,7 @@ static size_t cpystr_escape(char *out, const char *in, size_t in_size)
 {
 	size_t out_size = 0;
 	while(in_size && out_size + 2 < PATH_MAX) {
-		if(*in == '[' || *in == '?' || *in == '*') {
+		if(*in == '[' || *in == '?' || *in == '*' || *in == '\\') {
 			*(out++) = '\\';
 			out_size++;
 		}
-- 
2.43.0


From dfadb4bbc6f3a8f40cb0d60da7f7b718b72f9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:50 +0000
Subject: [PATCH 20/39] fix: filelist_search: fail cleanly if an entry can't be
 added

a failed add of ./ or ../ was ignored and left the entry out of the result,
and the error path freed the list but not the entries it holds.
---
 src/filelist/filelist.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 872df9d..bedc1ac 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -55,6 +55,9 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	*o = 0;
 	if((ret = glob(buf, defaultflags | GLOB_MARK, NULL, &l->pglob))) return ret;
 	if(!(l->files = stringptrlist_new(l->pglob.gl_pathc))) {
+		goto err;
+		err_files:
+		stringptrlist_free(l->files);
 		err:
 		globfree(&l->pglob);
 		return -1;
@@ -62,8 +65,8 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if(!(flags & FLF_INCLUDE_HIDDEN)) {
 		// the strings in the filelist are managed by glob, we dont free them ourselves.
 		// so its save to add string literals.
-		if(flags & FLF_INCLUDE_DOT) stringptrlist_add(l->files, "./", 2);
-		if(flags & FLF_INCLUDE_DOT_DOT) stringptrlist_add(l->files, "../", 3);
+		if((flags & FLF_INCLUDE_DOT) && !stringptrlist_add(l->files, "./", 2)) goto err_files;
+		if((flags & FLF_INCLUDE_DOT_DOT) && !stringptrlist_add(l->files, "../", 3)) goto err_files;
 	}
 	for(i = 0; i < l->pglob.gl_pathc; i++) {
 		s->ptr = l->pglob.gl_pathv[i];
@@ -95,7 +98,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				s->ptr = o;
 			} else {
 				// this should never happen, since we exchange an empty dir with "./"
-				goto err;
+				goto err_files;
 			}
 			if(flags & FLF_INCLUDE_HIDDEN && s->ptr[0] == '.') {
 				if(
@@ -104,10 +107,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				) continue;
 			}
 		}
-		if(!stringptrlist_add(l->files, s->ptr, s->size)) {
-			free(l->files);
-			goto err;
-		}
+		if(!stringptrlist_add(l->files, s->ptr, s->size)) goto err_files;
 	}
 	return 0;
 }
-- 
2.43.0


From 56a7c5c82f7011578322f3c3c7498d47dc4709b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:03 +0000
Subject: [PATCH 21/39] fix: process_open: don't destroy file actions that were
 not initialised

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..fee8661 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -9,7 +9,7 @@ int process_open(struct process *p, char* const argv[]) {
 	int pipes[3][2] = {0}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
-	if(errno) goto spawn_error;
+	if(errno) return -1;
 
 	for(i=0; i<3; ++i) {
 		errno = posix_spawn_file_actions_addclose(&p->fa, i);
-- 
2.43.0


From 116f16366d10044e666d812ba4c80821c1862ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:03 +0000
Subject: [PATCH 22/39] fix: process_close: keep waiting if waitpid is
 interrupted

if a signal arrived, the child was left as a zombie and the exitcode
returned was computed from an uninitialised variable.
---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index fee8661..d432fa6 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -50,7 +50,7 @@ int process_open(struct process *p, char* const argv[]) {
 int process_close(struct process *p) {
 	int i, retval;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	waitpid(p->pid, &retval, 0);
+	while(waitpid(p->pid, &retval, 0) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
 	return WEXITSTATUS(retval);
 }
-- 
2.43.0


From 99f067a9d8731fb2f1137398319c223252ba6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 23/39] fix: process_open: don't let other children inherit the
 pipe ends

with two processes open, the second one held the write end of the first
one's stdin, so process_close() on the first waited forever for a child
that waits for EOF.
---
 src/proclib/process.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index d432fa6..8122081 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -4,6 +4,13 @@
 #include <unistd.h>
 #include "../../include/proclib.h"
 
+static int make_pipe(int fds[2]) {
+	if(pipe(fds)) return -1;
+	/* a process opened later must not inherit our ends, or this one never sees EOF */
+	if(fcntl(fds[0], F_SETFD, FD_CLOEXEC) || fcntl(fds[1], F_SETFD, FD_CLOEXEC)) return -1;
+	return 0;
+}
+
 int process_open(struct process *p, char* const argv[]) {
 	extern char** environ;
 	int pipes[3][2] = {0}, i,j;
@@ -16,7 +23,7 @@ int process_open(struct process *p, char* const argv[]) {
 		if(errno) goto spawn_error;
 	}
 
-	for(i=0; i<3; ++i) if(pipe(pipes[i])) goto spawn_error;
+	for(i=0; i<3; ++i) if(make_pipe(pipes[i])) goto spawn_error;
 
 	static const unsigned char pipeends[3] = {0,1,1};
 
-- 
2.43.0


From 996d1f7e5598f2f31168045c696cda8ea220df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:56 +0000
Subject: [PATCH 24/39] fix: process_open: work if the caller has closed stdin,
 stdout or stderr

pipe() then returns descriptors below 3, which the file actions close in
the child before they are used. additionally, descriptor 0 was taken for
"not open" and leaked in the error case.
---
 src/proclib/process.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index 8122081..e4517f0 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -5,15 +5,24 @@
 #include "../../include/proclib.h"
 
 static int make_pipe(int fds[2]) {
+	int i, fd;
 	if(pipe(fds)) return -1;
-	/* a process opened later must not inherit our ends, or this one never sees EOF */
-	if(fcntl(fds[0], F_SETFD, FD_CLOEXEC) || fcntl(fds[1], F_SETFD, FD_CLOEXEC)) return -1;
+	for(i=0; i<2; ++i) {
+		/* 0-2 can't be used, as the child closes and replaces them */
+		if(fds[i] < 3) {
+			if((fd = fcntl(fds[i], F_DUPFD, 3)) == -1) return -1;
+			close(fds[i]);
+			fds[i] = fd;
+		}
+		/* a process opened later must not inherit our ends, or this one never sees EOF */
+		if(fcntl(fds[i], F_SETFD, FD_CLOEXEC)) return -1;
+	}
 	return 0;
 }
 
 int process_open(struct process *p, char* const argv[]) {
 	extern char** environ;
-	int pipes[3][2] = {0}, i,j;
+	int pipes[3][2] = {{-1,-1},{-1,-1},{-1,-1}}, i,j;
 
 	errno = posix_spawn_file_actions_init(&p->fa);
 	if(errno) return -1;
@@ -42,7 +51,7 @@ int process_open(struct process *p, char* const argv[]) {
 	if(errno) {
 		spawn_error:
 		for(i=0; i<3; ++i) for(j=0; j<2; ++j)
-			if(pipes[i][j]) close(pipes[i][j]);
+			if(pipes[i][j] != -1) close(pipes[i][j]);
 		posix_spawn_file_actions_destroy(&p->fa);
 		return -1;
 	}
-- 
2.43.0


From df3b7b0dfcf1a93b2fbe7cd132645c4595af3813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:06 +0000
Subject: [PATCH 25/39] fix: fileparser_open: work if the caller has closed
 stdin

---
 src/fileparser/fileparser_open.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fileparser/fileparser_open.c b/src/fileparser/fileparser_open.c
index cb0c490..3026431 100644
--- a/src/fileparser/fileparser_open.c
+++ b/src/fileparser/fileparser_open.c
@@ -5,11 +5,21 @@
 #ifndef O_CLOEXEC
 #define O_CLOEXEC 0
 #endif
+#ifndef F_DUPFD_CLOEXEC
+#define F_DUPFD_CLOEXEC F_DUPFD
+#endif
 
 int fileparser_open(fileparser* parser, const char* filename) {
 	if(!parser || !filename) return -1;
 	if((parser->file = open(filename, O_RDONLY|O_CLOEXEC)) == -1)
 		return errno;
+	if(!parser->file) { /* stdin was closed; 0 means "no file" to the other functions */
+		int err;
+		parser->file = fcntl(0, F_DUPFD_CLOEXEC, 1);
+		err = errno;
+		close(0);
+		if(parser->file == -1) return err;
+	}
 	parser->fpos = 0;
 	return 0;
 }
-- 
2.43.0


From 1492e7e4c7cdd92178380643952e91ac12332079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:26 +0000
Subject: [PATCH 26/39] fix: ssa_free: ignore pointers below the pool

---
 include/ssalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 455631d..e3d9c0d 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -95,7 +95,7 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 
 static void ssa_free(ssa_pool* p, void* ptr) {
 	ssize_t idx;
-	if((idx = ssa_getidx(p, ptr)) == -1 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
+	if((idx = ssa_getidx(p, ptr)) < 0 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
 #ifdef DEBUG
 		abort();
 #else
-- 
2.43.0


From 93a931d52b8c3406ce071db894999b41b51aa51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:29 +0000
Subject: [PATCH 27/39] fix: ssa_alloc: find free slots in pools of less than 8
 elements

---
 include/ssalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index e3d9c0d..b324ff6 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -83,9 +83,9 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 		return ssa_set(p, p->top - 1);
 	}
 	if(p->avail) {
-		for(b = 0; b < SSA_MAXELEM / TYPEBITS(SSA_COMPARETYPE); b++) {
+		for(b = 0; b * TYPEBITS(SSA_COMPARETYPE) < SSA_MAXELEM; b++) {
 			if(*((SSA_COMPARETYPE*)(p->used + (sizeof(SSA_COMPARETYPE) * b))) != SSA_COMPARETYPE_ALL_BITS_SET)
-				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
+				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1) && i < SSA_MAXELEM; i++)
 					if(!BA_GET(p->used, i))
 						return ssa_set(p, i);
 		}
-- 
2.43.0


From 74158241291ff0b1aa0926762ec8c8800d92d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:29 +0000
Subject: [PATCH 28/39] fix: guard_free: unmap the first page if n is a
 multiple of the page size

---
 include/guard_alloc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..c6e76ed 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -25,7 +25,7 @@ static void *guard_alloc(size_t n) {
 
 /* unlike regular free, you need to bookkeep the size originally used */
 static void guard_free(void* p, size_t n) {
-	size_t off = -n & (guard_alloc_pagesize-1);
-	char *mem = (void*)((uintptr_t)p - off);
-	munmap(mem, n + off + guard_alloc_pagesize);
+	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	char *mem = (void*)((uintptr_t)p + n - pages*ps);
+	munmap(mem, (pages+1)*ps);
 }
-- 
2.43.0


From 4085c7d157886ad016d8be78d2e23eb5f5dab91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:05 +0000
Subject: [PATCH 29/39] fix: guard_alloc: refuse sizes whose mapping size
 overflows

---
 include/guard_alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index c6e76ed..c6669f7 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -14,7 +14,9 @@ static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
 	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
-	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
+	char *mem;
+	if(n > (size_t)-1 - 2*ps) return 0;
+	mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
 		munmap(mem, (pages+1)*ps);
-- 
2.43.0


From fcbb290d687c91636d287c83d7139eb50c47fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:31 +0000
Subject: [PATCH 30/39] fix: process_open: make the pipes close-on-exec
 atomically

---
 src/proclib/process.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e4517f0..3416b06 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -1,3 +1,5 @@
+#undef _GNU_SOURCE
+#define _GNU_SOURCE
 #include <spawn.h>
 #include <errno.h>
 #include <fcntl.h>
@@ -6,16 +8,15 @@
 
 static int make_pipe(int fds[2]) {
 	int i, fd;
-	if(pipe(fds)) return -1;
+	/* a process opened by another thread or later must not inherit our ends, or this one never sees EOF */
+	if(pipe2(fds, O_CLOEXEC)) return -1;
 	for(i=0; i<2; ++i) {
 		/* 0-2 can't be used, as the child closes and replaces them */
 		if(fds[i] < 3) {
-			if((fd = fcntl(fds[i], F_DUPFD, 3)) == -1) return -1;
+			if((fd = fcntl(fds[i], F_DUPFD_CLOEXEC, 3)) == -1) return -1;
 			close(fds[i]);
 			fds[i] = fd;
 		}
-		/* a process opened later must not inherit our ends, or this one never sees EOF */
-		if(fcntl(fds[i], F_SETFD, FD_CLOEXEC)) return -1;
 	}
 	return 0;
 }
-- 
2.43.0


From a59f229048bc48c6ffa1fcc373da9ba2aeabe7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 31/39] fix: strdup_n: copy exactly len bytes and terminate the
 copy

---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From d67f3f1ebff908485fa6452dc2b2cfb061abacdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:55 +0000
Subject: [PATCH 32/39] fix: stringptr_new: refuse sizes that overflow the
 allocation size

---
 src/stringptr/stringptr_new.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_new.c b/src/stringptr/stringptr_new.c
index 3e2ea2a..77a0521 100644
--- a/src/stringptr/stringptr_new.c
+++ b/src/stringptr/stringptr_new.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 
 stringptr* stringptr_new(size_t size) {
+	if(size >= (size_t)-1 - sizeof(stringptr)) return NULL;
 	stringptr* result = (stringptr*) malloc(sizeof(stringptr) + size + 1);
 	if (!result) return NULL;
 	result->ptr = (char*)result + sizeof(stringptr);
-- 
2.43.0


From 07c8441463160dab08883044f1d1fe08c3f6a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:49 +0000
Subject: [PATCH 33/39] fix: stringptr_splits: treat an empty delimiter as no
 match instead of looping

---
 src/stringptrlist/stringptr_splits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 9015db8..642125c 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -12,14 +12,14 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	if(!result) return NULL;
 	i = 0;
 	while(i<=buf->size) {
-		if(i == buf->size || stringptr_here(buf, i, delim)) {
+		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
 			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
 				stringptrlist_free(result);
 				return NULL;
 			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
-			i += delim->size;
+			i += delim->size ? delim->size : 1;
 		} else
 			i++;
 	}
-- 
2.43.0


From 21b01fdbc5868c64e028b6e168b86df32704bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 34/39] fix: sblist: refuse to grow if the allocation size
 overflows

---
 src/sblist/sblist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index a5c38a3..a8b50d8 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -60,6 +60,7 @@ int sblist_grow_if_needed(sblist* l) {
 	if(l->count == l->capa) {
 		size_t n = l->blockitems ? l->blockitems : MY_PAGE_SIZE / l->itemsize;
 		if(!n) n = 1;
+		if(n > (size_t)-1 / l->itemsize - l->capa) return 0;
 		temp = realloc(l->items, (l->capa + n) * l->itemsize);
 		if(!temp) return 0;
 		l->capa += n;
-- 
2.43.0


From da755c06452a76c38a50e5a409f2694961e40c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:38 +0000
Subject: [PATCH 35/39] fix: ulz_vsnprintf treats the width as a minimum, reads
 all its digits and prints %x as unsigned

%.12d was taken for %.1d, %.2d cut off the digits of larger numbers, a
width given to %s leaked into the next number, widths of three digits
could overflow the conversion buffer, and %x printed values with the
top bit set sign-extended to 64 bits.
---
 src/format/ulz_vsnprintf.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..c5010e2 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -1,4 +1,5 @@
 #include <stdarg.h>
+#include <string.h>
 #include "../../include/strlib.h"
 #include "../../include/format.h"
 
@@ -17,6 +18,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 	unsigned int base = 10;
 	for(a = (char*)format; *a; a++) {
 		if(*a == '%') {
+			width = 0;
 			checkmod:
 			++a;
 			switch(*a) {
@@ -31,7 +33,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 						return -1;
 					}
 					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
+					for(j = 0; j < i; j++) width = width * 10 + (a[j] - '0');
 					a += i - 1;
 					goto checkmod;
 				case 's':
@@ -54,13 +56,23 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto strmove;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
-					if(width) nflags |= NTS_PAD;
-					ins = numberToString(inn, base, cbuf, width, nflags);
-					width = 0;
+					ins = numberToString(inn, base, cbuf, 0, nflags);
 					base = 10;
+					/* the width is the minimum number of digits, not counting the sign */
+					j = strlen(ins) - (*ins == '-');
+					i = width > j ? width - j : 0;
+					while(*ins == '-' || i) {
+						char c = '0';
+						if(*ins == '-') c = *(ins++);
+						else i--;
+						if(o < omax) {
+							*o = c;
+							o++;
+							res++;
+						} else if(!o) res++;
+					}
 					goto strmove;
 					break;
 				case 'l': case 'z':
@@ -93,7 +105,8 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 				case 'x': case 'X':
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					inn = va_arg(ap, unsigned);
+					goto nconv;
 				default:
 					goto fail;
 			}
-- 
2.43.0


From e79b690f1d745870fc57772716fe739c054b632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:38 +0000
Subject: [PATCH 36/39] fix: ulz_vsnprintf does not write into a buffer of size
 zero

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index c5010e2..7f6587a 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -8,7 +8,7 @@
 // destsize is treated like in the original. it will leave space for a trailing 0,
 // if NULL is passed as dest it will return the number of bytes it would haven written if a sufficiently large buffer was provided.
 ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list ap) {
-	char *ins, *a, *o = dest, *omax = dest ? dest + destsize - 1: NULL;
+	char *ins, *a, *o = dest, *omax = dest && destsize ? dest + destsize - 1: dest;
 	char cbuf[32];
 	uint64_t inn;
 	size_t i,j, width = 0;
@@ -119,6 +119,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			} else if(!o) res++;
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From b16029b2502e3b1697f50510b678d72267164d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 37/39] fix: stringptrlist_tofile doesn't leak its descriptor
 into programs started meanwhile

---
 src/stringptrlist/stringptrlist_tofile.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_tofile.c b/src/stringptrlist/stringptrlist_tofile.c
index 8a0bcd0..ef4bb84 100644
--- a/src/stringptrlist/stringptrlist_tofile.c
+++ b/src/stringptrlist/stringptrlist_tofile.c
@@ -1,11 +1,16 @@
-#include "../../include/stringptrlist.h"
+#undef _POSIX_C_SOURCE
+#define _POSIX_C_SOURCE 200809L
 #include <fcntl.h>
+#include "../../include/stringptrlist.h"
+#ifndef O_CLOEXEC
+#define O_CLOEXEC 0
+#endif
 
 /* writes a stringptrlist to a file, inserting a newline char after each list entry.
  * returns 1 on success, 0 on error. */
 int stringptrlist_tofile(stringptrlist* l, char* filename, int mode) {
 	int success = 0;
-	int fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC, mode);
+	int fd = open(filename, O_CLOEXEC | O_WRONLY | O_CREAT | O_TRUNC, mode);
 	if(fd == -1) goto ret;
 	stringptr *s;
 	sblist_iter(l, s) {
-- 
2.43.0


From 4e3108ab3af2252a44cbb75ec9e52f6b28d0ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 38/39] fix: puts of stdio-repl.h ends the line like the
 function it replaces

---
 include/stdio-repl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdio-repl.h b/include/stdio-repl.h
index 029dac2..80abdd7 100644
--- a/include/stdio-repl.h
+++ b/include/stdio-repl.h
@@ -44,6 +44,6 @@
 #define dprintf(...) ulz_fprintf(__VA_ARGS__)
 
 #define perror(x) log_puterror(2, x)
-#define puts(x) log_putc(1, x)
+#define puts(x) (log_putc(1, x), log_putln(1))
 
 #endif
-- 
2.43.0


From 759fa29da85af23e4bbbf9d4986f4b40efaeafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 39/39] fix: process_close: don't make up an exit code if there
 is none

a child killed by a signal was reported as having exited with 0, and if the
caller ignores SIGCHLD the value of an uninitialized variable was returned.
---
 include/proclib.h     | 3 ++-
 src/proclib/process.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/proclib.h b/include/proclib.h
index 092008d..edc018a 100644
--- a/include/proclib.h
+++ b/include/proclib.h
@@ -35,7 +35,8 @@ int process_open(struct process *p, char* const argv[]);
  * terminate a process started with process_open.
  * closes pipes, waits for process to exit, returns exitcode.
  * @param p  process handle which was initialized with process_open.
- * @return process exitcode.
+ * @return process exitcode, or -1 if there is none (the process was killed by
+ *  a signal, or the caller ignores SIGCHLD).
  */
 int process_close(struct process *p);
 
diff --git a/src/proclib/process.c b/src/proclib/process.c
index 3416b06..685542a 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -65,10 +65,12 @@ int process_open(struct process *p, char* const argv[]) {
 
 #include <sys/wait.h>
 int process_close(struct process *p) {
-	int i, retval;
+	int i, retval; pid_t r;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	while(waitpid(p->pid, &retval, 0) == -1 && errno == EINTR);
+	while((r = waitpid(p->pid, &retval, 0)) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
+	/* killed by a signal, or its status was discarded because SIGCHLD is ignored */
+	if(r == -1 || !WIFEXITED(retval)) return -1;
 	return WEXITSTATUS(retval);
 }
 
-- 
2.43.0

