From 0a73f25b480a7fbe7429327c3e9f15455a3a11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 01/32] fix: compare integer keys without overflowing the
 difference

kvtree_sort_int and kvtree_list_int ordered keys that are further than
INT_MAX apart (e.g. -2147483648 and 2147483647) the wrong way round.
---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a43c4a9..a56bac3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -551,7 +551,7 @@ static int kvtree_cmp_fn_int_asc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_a - int_b);
+  return (int_a > int_b) - (int_a < int_b);
 }
 
 /** sort integers in descending order */
@@ -561,7 +561,7 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_b - int_a);
+  return (int_b > int_a) - (int_b < int_a);
 }
 
 /** sort the hash assuming the keys are ints */
-- 
2.43.0


From 8662fd62f69e180fa139ea1d7cfd8d5efcce23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 02/32] fix: pass the size to the out-of-memory message

kvtree_malloc left out the argument for %llu, so reporting a failed
allocation read stray arguments and could crash.
---
 src/kvtree_helpers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index d7ba4e9..dc9539e 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -70,7 +70,9 @@ void* kvtree_malloc(size_t size, const char* file, int line)
   if (size > 0) {
     ptr = malloc(size);
     if (ptr == NULL) {
-      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", file, line);
+      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d",
+        (unsigned long long) size, file, line
+      );
     }
   }
   return ptr;
-- 
2.43.0


From 9cacf06fb3ea37c3e73150e9bed2666c8a1ea3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 03/32] fix: abort if a key can not be duplicated

kvtree_elem_init ignored a failed strdup and left an element without a
key in the tree.
---
 src/kvtree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index a56bac3..2473d3d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -100,6 +100,11 @@ static kvtree_elem* kvtree_elem_init(kvtree_elem* elem, const char* key, kvtree*
   if (elem != NULL) {
     if (key != NULL) {
       elem->key = strdup(key);
+      if (elem->key == NULL) {
+        kvtree_abort(-1, "Failed to duplicate key string @ %s:%d",
+          __FILE__, __LINE__
+        );
+      }
     } else {
       /* bad idea to allow key to be set to NULL */
       elem->key = NULL;
-- 
2.43.0


From cf6050eb1079984b869231b31a790328134e1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 04/32] fix: return an invalid descriptor if the lock can not
 be taken

kvtree_open_with_lock returned KVTREE_FAILURE, which is 1 and which its
callers took for an open file descriptor: they went on to read, write and
close stdout without holding the lock.
---
 src/kvtree_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 81c6def..954b23e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -222,7 +222,7 @@ int kvtree_open_with_lock(const char* file, int flags, mode_t mode, int write)
   int ret = kvtree_file_lock_read_write(file, fd, write);
   if (ret != KVTREE_SUCCESS) {
     close(fd);
-    return ret;
+    return -1;
   }
 
   /* return the opened file descriptor */
-- 
2.43.0


From 0ede5aba726698d10d3cd048b308233d771b8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 05/32] fix: close the file even if releasing its lock fails

kvtree_close_with_unlock leaked the descriptor, and with it the lock.
---
 src/kvtree_io.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 954b23e..0caeb15 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -234,12 +234,14 @@ int kvtree_close_with_unlock(const char* file, int fd)
 {
   /* release the file lock */
   int ret = kvtree_file_unlock(file, fd);
-  if (ret != KVTREE_SUCCESS) {
-    return ret;
-  }
 
-  /* close the file */
-  return kvtree_close(file, fd);
+  /* close the file, even if we failed to release the lock,
+   * closing it drops the lock as well */
+  int close_ret = kvtree_close(file, fd);
+  if (ret == KVTREE_SUCCESS) {
+    ret = close_ret;
+  }
+  return ret;
 }
 
 /* seek file descriptor to specified position */
-- 
2.43.0


From 2be331b6bc395cd07b0b968eb992b094a1b8168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 06/32] fix: report failures of kvtree_write_with_lock and
 truncate the file

A failed write or close was reported as success, and a shorter tree left
the tail of a longer one behind it in the file.
---
 src/kvtree.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 2473d3d..923b2a5 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1576,13 +1576,27 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 1);
   if (fd >= 0) {
+    int rc = KVTREE_SUCCESS;
+
     /* write the file into the hash */
-    kvtree_write_fd(file, fd, hash);
+    ssize_t nwrite = kvtree_write_fd(file, fd, hash);
+    if (nwrite < 0) {
+      kvtree_err("Couldn't write file %s @ %s:%d", file, __FILE__, __LINE__);
+      rc = KVTREE_FAILURE;
+    } else if (ftruncate(fd, (off_t) nwrite) == -1) {
+      /* failed to cut off what is left of a longer tree */
+      kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
+        errno, strerror(errno), __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
+    }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, fd);
+    if (kvtree_close_with_unlock(file, fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
-    return KVTREE_SUCCESS;
+    return rc;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From 36614741673fb995e4f876985b85453fbb9c1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 07/32] fix: report failures of kvtree_write_close_unlock

A failed seek, write, truncate or close was reported as success.
---
 src/kvtree.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 923b2a5..91fc581 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1691,12 +1691,19 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
     return KVTREE_FAILURE;
   }
 
+  int rc = KVTREE_SUCCESS;
+
   if (*fd >= 0) {
     /* wind the file pointer back to the start of the file */
-    lseek(*fd, 0, SEEK_SET);
+    if (kvtree_lseek(file, *fd, 0, SEEK_SET) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* write the updated hash back to the file */
-    ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
+    ssize_t nwrite = -1;
+    if (rc == KVTREE_SUCCESS) {
+      nwrite = kvtree_write_fd(file, *fd, hash);
+    }
 
     /* truncate file to new size */
     if (nwrite >= 0) {
@@ -1704,17 +1711,22 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
         kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
           errno, strerror(errno), __FILE__, __LINE__
         );
+        rc = KVTREE_FAILURE;
       }
+    } else {
+      rc = KVTREE_FAILURE;
     }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, *fd);
+    if (kvtree_close_with_unlock(file, *fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* mark the file descriptor as closed */
     *fd = -1;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /** write kvtree as gather/scatter file, input kvtree must be in form:
-- 
2.43.0


From e0d0fe88ea5418022f57f068c34df3dcaeefaae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 08/32] fix: fail kvtree_lock_open_read if the file can not be
 read

A damaged file or a read error was reported as success with the tree left
empty, so that an update of the tree then overwrote everything else that
was stored.
---
 src/kvtree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 91fc581..89aa952 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1648,7 +1648,12 @@ int kvtree_lock_open_read(const char* file, int* fd, kvtree* hash)
   *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
   if (*fd >= 0) {
     /* read the file into the hash */
-    kvtree_read_fd(file, *fd, hash);
+    if (kvtree_read_fd(file, *fd, hash) < 0) {
+      kvtree_err("Couldn't read file %s @ %s:%d", file, __FILE__, __LINE__);
+      kvtree_close_with_unlock(file, *fd);
+      *fd = -1;
+      return KVTREE_FAILURE;
+    }
     return KVTREE_SUCCESS;
   }
 
-- 
2.43.0


From 2983aaa460999a10596a23c01b0866a24c7a9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 09/32] fix: do not end the program over a bogus file size

kvtree_read_fd aborted if the size recorded in a damaged header was larger
than what can be allocated.
---
 src/kvtree.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 89aa952..5f342cd 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1401,8 +1401,15 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     return -1;
   }
 
-  /* allocate a buffer to read the hash and crc */
-  char* buf = (char*) KVTREE_MALLOC(filesize);
+  /* allocate a buffer to read the hash and crc,
+   * the size comes from the file, so it may be bogus */
+  char* buf = (char*) malloc(filesize);
+  if (buf == NULL) {
+    kvtree_err("Failed to allocate %llu bytes to read %s @ %s:%d",
+      (unsigned long long) filesize, file, __FILE__, __LINE__
+    );
+    return -1;
+  }
 
   /* copy the header into the buffer */
   memcpy(buf, header, size);
-- 
2.43.0


From 91879625d451497df0e7f7c2804b674479cfdb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 10/32] fix: do not read beyond the contents of a malformed
 file

kvtree_read_fd unpacked whatever the file contained without checking that
counts and strings end within the recorded size, and took the crc from
before the buffer if the recorded size had no room for it.
---
 src/kvtree.c | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 5f342cd..855ccd3 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1330,6 +1330,42 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
+/** checks that a complete packed hash lies within the size bytes at buf */
+static int kvtree_pack_is_complete(const char* buf, size_t size)
+{
+  size_t pos = 0;
+
+  /* number of hashes left to look at, each one starts with its COUNT,
+   * and each but the outermost one follows its KEY string */
+  uint64_t hashes = 1;
+  int outermost = 1;
+  while (hashes > 0) {
+    /* skip over the KEY string and its terminating NUL */
+    if (! outermost) {
+      const char* end = (const char*) memchr(buf + pos, '\0', size - pos);
+      if (end == NULL) {
+        return 0;
+      }
+      pos = (size_t) (end - buf) + 1;
+    }
+    outermost = 0;
+
+    /* read in the COUNT value */
+    uint32_t count_network = 0;
+    if (size - pos < sizeof(uint32_t)) {
+      return 0;
+    }
+    memcpy(&count_network, buf + pos, sizeof(uint32_t));
+    pos += sizeof(uint32_t);
+
+    /* done with this one, but we need to look at those it holds */
+    hashes += (uint64_t) kvtree_ntoh32(count_network);
+    hashes--;
+  }
+
+  return 1;
+}
+
 /** executes logic of kvtree_read using an opened file descriptor */
 ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
 {
@@ -1433,10 +1469,18 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   }
 
   /* check the crc value if it's set */
+  size_t datasize = filesize - size;
   int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
   if (crc_set) {
-    /* TODO: we should check that the remainder above is at least 4
-     * (for the crc) */
+    /* check that there is room for the crc */
+    if (datasize < sizeof(uint32_t)) {
+      kvtree_err("Invalid file size stored in %s @ %s:%d",
+        file, __FILE__, __LINE__
+      );
+      kvtree_free(&buf);
+      return -1;
+    }
+    datasize -= sizeof(uint32_t);
 
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
@@ -1457,6 +1501,15 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
+  /* check that unpacking stays within the data */
+  if (! kvtree_pack_is_complete(buf + size, datasize)) {
+    kvtree_err("Incomplete hash stored in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    kvtree_free(&buf);
+    return -1;
+  }
+
   /* create a temporary hash to read data into, unpack, and merge */
   kvtree* tmp_hash = kvtree_new();
   kvtree_unpack(buf + size, tmp_hash);
-- 
2.43.0


From 867e214c3149452560fa9fe34597bef6646425cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 11/32] fix: do not use the key after deleting what it may
 point to

kvtree_unset_kv read freed memory if key is the string of the value it
removes, e.g. when the same string is passed for both.
---
 src/kvtree.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 855ccd3..7e30151 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -773,10 +773,14 @@ int kvtree_unset_kv(kvtree* hash, const char* key, const char* val)
     return KVTREE_SUCCESS;
   }
 
-  kvtree* v = kvtree_get(hash, key);
+  /* don't use key after unsetting val,
+   * the caller may have got it from what we delete */
+  kvtree_elem* elem = kvtree_elem_get(hash, key);
+  kvtree* v = kvtree_elem_hash(elem);
   int rc = kvtree_unset(v, val);
-  if (kvtree_size(v) == 0) {
-    rc = kvtree_unset(hash, key);
+  if (elem != NULL && kvtree_size(v) == 0) {
+    kvtree_elem_extract_by_addr(hash, elem);
+    rc = kvtree_elem_delete(elem);
   }
 
   return rc;
-- 
2.43.0


From 24f38b6a259aaa60e0d183a2cfbb0f84feee3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 12/32] fix: copy key and value before unsetting the current
 setting

The kvtree_util_set functions unset the key first. If the caller passed a
key or a string value that it got from that very entry, they went on to
copy it from freed memory.
---
 src/kvtree_util.c | 94 +++++++++++++++++++----------------------------
 1 file changed, 38 insertions(+), 56 deletions(-)

diff --git a/src/kvtree_util.c b/src/kvtree_util.c
index 0af2fc5..74f82b9 100644
--- a/src/kvtree_util.c
+++ b/src/kvtree_util.c
@@ -14,92 +14,74 @@
 /* need at least version 8.5 of queue.h from Berkeley */
 #include "queue.h"
 
+/* replaces any current setting of key with val, which the hash takes over,
+ * the key and the strings copied into val may be part of that setting,
+ * so it must not be unset before they have been copied */
+static int kvtree_util_set_val(kvtree* hash, const char* key, kvtree* val)
+{
+  if (kvtree_set(hash, key, val) == NULL) {
+    /* no hash or no key to set */
+    kvtree_delete(&val);
+  }
+  return KVTREE_SUCCESS;
+}
+
 int kvtree_util_set_bytecount(kvtree* hash, const char* key, unsigned long count)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lu", key, count);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  kvtree_setf(val, NULL, "%lu", count);
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_set_crc32(kvtree* hash, const char* key, uLong crc)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %#x", key, (uint32_t) crc);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  kvtree_setf(val, NULL, "%#x", (uint32_t) crc);
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_set_int(kvtree* hash, const char* key, int value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_set_kv_int(hash, key, value);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  kvtree_setf(val, kvtree_new(), "%d", value);
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_set_unsigned_long(kvtree* hash, const char* key, unsigned long value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lu", key, value);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  kvtree_setf(val, NULL, "%lu", value);
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_set_str(kvtree* hash, const char* key, const char* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_set_kv(hash, key, value);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  if (value != NULL) {
+    kvtree_set(val, value, kvtree_new());
+  }
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_set_int64(kvtree* hash, const char* key, int64_t value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %lld", key, value);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  kvtree_setf(val, NULL, "%lld", value);
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_set_double(kvtree* hash, const char* key, double value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %f", key, value);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  kvtree_setf(val, NULL, "%f", value);
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_set_ptr(kvtree* hash, const char* key, void* value)
 {
-  /* first, unset any current setting */
-  kvtree_unset(hash, key);
-
-  /* then set the new value */
-  kvtree_setf(hash, NULL, "%s %p", key, value);
-
-  return KVTREE_SUCCESS;
+  kvtree* val = kvtree_new();
+  kvtree_setf(val, NULL, "%p", value);
+  return kvtree_util_set_val(hash, key, val);
 }
 
 int kvtree_util_get_bytecount(const kvtree* hash, const char* key, unsigned long* val)
-- 
2.43.0


From da6e254c22d562d93524ab0b9c925839c845f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 13/32] fix: store doubles with enough digits to get them back

kvtree_util_set_double kept six digits after the decimal point, so that
small values were read back as 0 and others were rounded.
---
 src/kvtree_util.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_util.c b/src/kvtree_util.c
index 74f82b9..7eae27b 100644
--- a/src/kvtree_util.c
+++ b/src/kvtree_util.c
@@ -72,8 +72,16 @@ int kvtree_util_set_int64(kvtree* hash, const char* key, int64_t value)
 
 int kvtree_util_set_double(kvtree* hash, const char* key, double value)
 {
+  /* use the short form if it gives the same value when read back,
+   * otherwise print enough digits so that it does */
+  char str[512];
+  snprintf(str, sizeof(str), "%f", value);
+  if (strtod(str, NULL) != value) {
+    snprintf(str, sizeof(str), "%.17g", value);
+  }
+
   kvtree* val = kvtree_new();
-  kvtree_setf(val, NULL, "%f", value);
+  kvtree_setf(val, NULL, "%s", str);
   return kvtree_util_set_val(hash, key, val);
 }
 
-- 
2.43.0


From 68b232d5f8d4dfd6fc58c8c5f534f990d949a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 14/32] fix: accept subnormal numbers in kvtree_atod

---
 src/kvtree_helpers.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index dc9539e..07d624d 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -48,8 +48,11 @@ int kvtree_atod(char* str, double* val)
   /* convert string to double */
   errno = 0;
   double value = strtod(str, NULL);
-  if (errno == 0) {
-    /* got a valid double, set our output parameter */
+  if (errno == 0 ||
+      (errno == ERANGE && value < 1.0 && value > -1.0))
+  {
+    /* got a valid double, set our output parameter,
+     * ERANGE on a small value just denotes a subnormal number */
     *val = value;
   } else {
     /* could not interpret value */
-- 
2.43.0


From 47ccfe56bbb90a0c570bcc8421a8a2a6dc5cfdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 15/32] fix: read the files listed in the map in
 kvtree_read_scatter_single

---
 src/kvtree.c | 164 +++++++++++++++++++++++++--------------------------
 1 file changed, 82 insertions(+), 82 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 7e30151..f37ef24 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -18,10 +18,7 @@
 #include <fcntl.h>
 #include <string.h>
 #include <errno.h>
-#include <libgen.h>
-#include <dirent.h>
 #include <limits.h>
-#include <regex.h>
 
 
 /* need at least version 8.5 of queue.h from Berkeley */
@@ -1897,6 +1894,56 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
+/* read each file listed in a map of the given level (1 or higher), files
+ * named in a map of level 1 hold rank data, which we merge into data,
+ * the ones named in a higher level are maps themselves */
+static int kvtree_read_scatter_single_map(
+  const char* prefix,
+  const kvtree* map,
+  int level,
+  kvtree* data)
+{
+  int rc = KVTREE_SUCCESS;
+
+  kvtree_elem* elem;
+  for (elem = kvtree_elem_first(kvtree_get(map, "RANK"));
+       elem != NULL && rc == KVTREE_SUCCESS;
+       elem = kvtree_elem_next(elem))
+  {
+    /* build path to file, its name is relative to our prefix */
+    char* name;
+    char path[PATH_MAX];
+    if (kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &name) != KVTREE_SUCCESS ||
+        snprintf(path, sizeof(path), "%s%s", prefix, name) >= (int) sizeof(path))
+    {
+      kvtree_err("Invalid file name in map of %s @ %s:%d",
+        prefix, __FILE__, __LINE__
+      );
+      return KVTREE_FAILURE;
+    }
+
+    /* read the file and check that it is of the level below ours */
+    int file_level;
+    kvtree* tree = kvtree_new();
+    if (kvtree_read_file(path, tree) != KVTREE_SUCCESS ||
+        kvtree_util_get_int(tree, "LEVEL", &file_level) != KVTREE_SUCCESS ||
+        level < 1 || file_level != level - 1)
+    {
+      kvtree_err("Failed to read part of %s from %s @ %s:%d",
+        prefix, path, __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
+    } else if (file_level > 0) {
+      rc = kvtree_read_scatter_single_map(prefix, tree, file_level, data);
+    } else {
+      rc = kvtree_merge(data, kvtree_get(tree, "RANK"));
+    }
+    kvtree_delete(&tree);
+  }
+
+  return rc;
+}
+
 /*
  * Given a prefix passed to a kvtree_write_gather() (like "/tmp/rank2file",
  * read all the rank data from all the scattered subfiles, and construct a
@@ -1920,105 +1967,58 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
  */
 int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 {
+  /* check that we have a tree to read into */
+  if (data == NULL) {
+    kvtree_err("No tree to read %s into @ %s:%d",
+      prefix, __FILE__, __LINE__
+    );
+    return KVTREE_FAILURE;
+  }
+
   /*
    * Read in high level kvtree.
    */
-  kvtree* final_tree = kvtree_new();
-  int rc = kvtree_read_file(prefix, final_tree);
+  kvtree* map = kvtree_new();
+  int rc = kvtree_read_file(prefix, map);
   if (rc != KVTREE_SUCCESS) {
-    kvtree_delete(&final_tree);
+    kvtree_delete(&map);
     kvtree_err("Couldn't read in high level kvtree file %s\n", prefix);
     return rc;
   }
 
   unsigned long expected_ranks;
-  rc = kvtree_util_get_unsigned_long(final_tree, "RANKS", &expected_ranks);
+  rc = kvtree_util_get_unsigned_long(map, "RANKS", &expected_ranks);
   if (rc != KVTREE_SUCCESS) {
-    kvtree_delete(&final_tree);
+    kvtree_delete(&map);
     kvtree_err("Couldn't get RANKS for %s\n", prefix);
     return rc;
   }
-  kvtree_delete(&final_tree);
-
-  /* Start construction of the final tree that we will return */
-  final_tree = kvtree_new();
-
-  /* Look at all the subfiles with our prefix and read in the file lists */
-  char* prefix_dir_copy = strdup(prefix);
-  char* prefix_dir = dirname(prefix_dir_copy);
-  char* prefix_file_copy = strdup(prefix);
-  char* prefix_file = basename(prefix_file_copy);
-
-  /* Create our regex to match our prefix files */
-  char pattern[PATH_MAX];
-  snprintf(pattern, sizeof(pattern), "^%s\\.0\\.[0-9]+$", prefix_file);
-  pattern[sizeof(pattern) - 1] = '\0';
 
-  regex_t regex;
-  rc = regcomp(&regex, pattern, REG_EXTENDED);
-  if (rc) {
-    rc = KVTREE_FAILURE;
-    goto end;
+  int level;
+  rc = kvtree_util_get_int(map, "LEVEL", &level);
+  if (rc != KVTREE_SUCCESS) {
+    kvtree_delete(&map);
+    kvtree_err("Couldn't get LEVEL for %s\n", prefix);
+    return rc;
   }
 
-  DIR* d = opendir(prefix_dir);
-  if (!d) {
+  /* read all files of the set into a temporary tree, it holds an entry
+   * for each rank, if we find them all merge it into the caller's tree */
+  kvtree* final_tree = kvtree_new();
+  rc = kvtree_read_scatter_single_map(prefix, map, level, final_tree);
+  if (rc == KVTREE_SUCCESS && (unsigned long) kvtree_size(final_tree) != expected_ranks) {
+    kvtree_err("Found %d of %lu ranks for %s @ %s:%d",
+      kvtree_size(final_tree), expected_ranks, prefix, __FILE__, __LINE__
+    );
     rc = KVTREE_FAILURE;
-    goto end;
-  }
-
-  /* For each file/dir in our prefix dir */
-  unsigned long actual_ranks = 0;
-  struct dirent* dir;
-  while ((dir = readdir(d)) != NULL) {
-    /*
-     * Search for any file starting with "prefix_file."
-     * like "rank2file.".
-     */
-    /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = regexec(&regex, dir->d_name, 0, NULL, 0);
-    if (rc == 0) {  /* Did we get both numbers in the extension? */
-      /* subfile matches */
-
-      /* Construct the full path to the subfile kvtree */
-      char tmp[PATH_MAX];
-      memset(tmp, 0, sizeof(tmp));
-      snprintf(tmp, sizeof(tmp), "%s/%s", prefix_dir, dir->d_name);
-      tmp[sizeof(tmp) - 1] = '\0';
-
-      /* Read in the subfile */
-      kvtree* subfile_tree = kvtree_new();
-      rc = kvtree_read_file(tmp, subfile_tree);
-      if (rc == KVTREE_SUCCESS) {
-        /* Sanity: each subfile we want will have LEVEL=0 */
-        unsigned long level;
-        rc = kvtree_util_get_unsigned_long(subfile_tree, "LEVEL", &level);
-        if (rc == KVTREE_SUCCESS && level == 0) {
-          /* Break off and remove the "RANK" subtree from the rank2file tree */
-          kvtree* subfile_rank_tree = kvtree_extract(subfile_tree, "RANK");
-          if (subfile_rank_tree) {
-            if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
-              actual_ranks += kvtree_size(subfile_rank_tree);
-            }
-          }
-        }
-      }
-      kvtree_delete(&subfile_tree);
-    }
   }
-  closedir(d);
-  kvtree_merge(data, final_tree);
-  rc = KVTREE_SUCCESS;
-
-end:
-  kvtree_free(&prefix_dir_copy);
-  kvtree_free(&prefix_file_copy);
-  kvtree_delete(&final_tree);
-  if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {
-    return KVTREE_FAILURE;
+  if (rc == KVTREE_SUCCESS) {
+    rc = kvtree_merge(data, final_tree);
   }
 
-  return KVTREE_SUCCESS;
+  kvtree_delete(&final_tree);
+  kvtree_delete(&map);
+  return rc;
 }
 ///@}
 
-- 
2.43.0


From 8949f4a8eedbb374dae56db4303a610de5dca07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 16/32] fix: check arguments of kvtree_write_to_gather

---
 src/kvtree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index f37ef24..8f0d7cb 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1803,6 +1803,12 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
 int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
 {
   int rc = KVTREE_SUCCESS;
+
+  /* check that we got a file name and something to write */
+  if (prefix == NULL || data == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* record up to 8K entries per file */
   long entries_per_file = 8192;
 
-- 
2.43.0


From 64dabb84c26c1c3ef1a5b5493bd6cb5970eaaeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 17/32] fix: do not cut off long paths of gather files

---
 src/kvtree.c        | 9 ++++-----
 src/kvtree_mpi_io.c | 8 ++++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 8f0d7cb..6490433 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1864,7 +1864,7 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
     }
 
     /* build name for part file */
-    char filename[1024];
+    char filename[PATH_MAX + 1];
     snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);
 
     /* write hash to file */
@@ -1918,15 +1918,14 @@ static int kvtree_read_scatter_single_map(
   {
     /* build path to file, its name is relative to our prefix */
     char* name;
-    char path[PATH_MAX];
-    if (kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &name) != KVTREE_SUCCESS ||
-        snprintf(path, sizeof(path), "%s%s", prefix, name) >= (int) sizeof(path))
-    {
+    if (kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &name) != KVTREE_SUCCESS) {
       kvtree_err("Invalid file name in map of %s @ %s:%d",
         prefix, __FILE__, __LINE__
       );
       return KVTREE_FAILURE;
     }
+    char path[PATH_MAX + 1];
+    snprintf(path, sizeof(path), "%s%s", prefix, name);
 
     /* read the file and check that it is of the level below ours */
     int file_level;
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 71cd502..2a69ba4 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -200,7 +200,7 @@ static unsigned long kvtree_write_gather_map(
     snprintf(mapfile, sizeof(mapfile), ".%d.%d", level, writer);
   }
 
-  char mappath[1024];
+  char mappath[PATH_MAX + 1];
   snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
 
   /* call gather recursively if there's another level */
@@ -312,7 +312,7 @@ int kvtree_write_gather(
 
   /* define file name */
   char mapfile[1024];
-  char mappath[1024];
+  char mappath[PATH_MAX + 1];
   snprintf(mapfile, sizeof(mapfile), ".0.%d", writer);
   snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
 
@@ -452,7 +452,7 @@ static int kvtree_read_scatter_map(
     if (kvtree_util_get_str(elem_hash, "FILE", &value) == KVTREE_SUCCESS)
     {
       /* return string of full path to file to caller */
-      char mappath[1024];
+      char mappath[PATH_MAX + 1];
       snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
       newfile = strdup(mappath);
     } else {
@@ -522,7 +522,7 @@ int kvtree_read_scatter(
   MPI_Comm_size(comm, &ranks_world);
 
   /* build path to file */
-  char mappath[1024];
+  char mappath[PATH_MAX + 1];
   snprintf(mappath, sizeof(mappath), "%s", prefix);
 
   /* fetch file names and offsets containing file hash data */
-- 
2.43.0


From e4f9b11689c5eb6e1f686dce2e6ea4f4f8e6113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 18/32] fix: report failure to close a gather file

---
 src/kvtree_mpi_io.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 2a69ba4..7e72a87 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -246,7 +246,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -356,7 +358,9 @@ int kvtree_write_gather(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err( "Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -409,7 +413,9 @@ static int kvtree_read_scatter_map(
       }
 
       /* close the file */
-      kvtree_close(file, fd);
+      if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Failed to open file %s @ %s:%d",
         file, __FILE__, __LINE__
@@ -579,7 +585,9 @@ int kvtree_read_scatter(
       kvtree_delete(&save);
 
       /* close the file */
-      kvtree_close(file, fd);
+      if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Failed to open %s @ %s:%d",
         file, __FILE__, __LINE__
-- 
2.43.0


From c9179eca060de95f99f11b54a05ab4141d649da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 19/32] fix: report failure to flush a file in kvtree_close

---
 src/kvtree_io.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 0caeb15..f731237 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -115,8 +115,19 @@ int kvtree_open(const char* file, int flags, ...)
 /* fsync and close file */
 int kvtree_close(const char* file, int fd)
 {
-  /* fsync first */
-  if (fsync(fd) < 0) {
+  int rc = KVTREE_SUCCESS;
+
+  /* fsync first, try again if interrupted */
+  int sync_rc;
+  do {
+    sync_rc = fsync(fd);
+  } while (sync_rc < 0 && errno == EINTR);
+  if (sync_rc < 0) {
+    /* some files can not be synced, otherwise data may be lost */
+    if (errno != EINVAL && errno != EROFS) {
+      rc = KVTREE_FAILURE;
+    }
+
     /* print warning that fsync failed */
     kvtree_dbg(2, "Failed to fsync file descriptor: %s errno=%d %s @ %s:%d",
       file, errno, strerror(errno), __FILE__, __LINE__
@@ -129,10 +140,10 @@ int kvtree_close(const char* file, int fd)
     kvtree_err("Closing file descriptor %d for file %s: errno=%d %s @ %s:%d",
       fd, file, errno, strerror(errno), __FILE__, __LINE__
     );
-    return KVTREE_FAILURE;
+    rc = KVTREE_FAILURE;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /*
-- 
2.43.0


From a704cea5a24e243332fba09186941ed791a6ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 20/32] fix: do not overflow the buffer of blanks when printing
 deep trees

---
 src/kvtree.c | 54 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 6490433..0e73350 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2034,23 +2034,16 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 /** prints specified hash element to stdout for debugging */
 static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (mode == KVTREE_PRINT_TREE) {
     if (elem != NULL) {
       if (elem->key != NULL) {
-        printf("%s%s\n", tmp, elem->key);
+        printf("%*s%s\n", indent, "", elem->key);
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
       }
       kvtree_print_mode(elem->hash, indent, mode);
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2065,25 +2058,25 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
           if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {
             /* my hash has one value, and the hash for that one value
              * is empty, so print this as a key/value pair */
-            printf("%s%s = %s\n", tmp, elem->key, elem2->key);
+            printf("%*s%s = %s\n", indent, "", elem->key, elem2->key);
           } else {
             /* my hash has one value, but the hash for that one value is
              * non-empty so we need to recurse into hash */
-            printf("%s%s\n", tmp, elem->key);
+            printf("%*s%s\n", indent, "", elem->key);
             kvtree_print_mode(elem->hash, indent, mode);
           }
         } else {
           /* hash for current element has 0 or more than one items,
            * so we need to recurse into hash */
-          printf("%s%s\n", tmp, elem->key);
+          printf("%*s%s\n", indent, "", elem->key);
           kvtree_print_mode(elem->hash, indent, mode);
         }
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
         kvtree_print_mode(elem->hash, indent, mode);
       }
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2095,20 +2088,13 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 /** prints specified hash to stdout for debugging */
 int kvtree_print_mode(const kvtree* hash, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_print(elem, indent + 2, mode);
     }
   } else {
-    printf("%sNULL LIST\n", tmp);
+    printf("%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2122,22 +2108,15 @@ int kvtree_print(const kvtree* hash, int indent)
 /** logs specified hash element to stdout for debugging */
 static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (elem != NULL) {
     if (elem->key != NULL) {
-      kvtree_dbg(log_level, "%s%s\n", tmp, elem->key);
+      kvtree_dbg(log_level, "%*s%s\n", indent, "", elem->key);
     } else {
-      kvtree_dbg(log_level, "%sNULL KEY\n", tmp);
+      kvtree_dbg(log_level, "%*sNULL KEY\n", indent, "");
     }
     kvtree_log(elem->hash, log_level, indent);
   } else {
-    kvtree_dbg(log_level, "%sNULL ELEMENT\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL ELEMENT\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2145,20 +2124,13 @@ static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 /** prints specified hash to stdout for debugging */
 int kvtree_log(const kvtree* hash, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_log(elem, log_level, indent+2);
     }
   } else {
-    kvtree_dbg(log_level, "%sNULL LIST\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From f5e44bfaaa3cc0045256ab18c83066a95e7545d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 21/32] fix: abort if a path can not be duplicated

---
 src/kvtree_mpi_io.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 7e72a87..afced51 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -461,6 +461,11 @@ static int kvtree_read_scatter_map(
       char mappath[PATH_MAX + 1];
       snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
       newfile = strdup(mappath);
+      if (newfile == NULL) {
+        kvtree_abort(-1, "Failed to allocate memory for path %s @ %s:%d",
+          mappath, __FILE__, __LINE__
+        );
+      }
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -539,6 +544,11 @@ int kvtree_read_scatter(
     /* rank 0 is only valid reader to start with */
     valid  = 1;
     file   = strdup(mappath);
+    if (file == NULL) {
+      kvtree_abort(-1, "Failed to allocate memory for path %s @ %s:%d",
+        mappath, __FILE__, __LINE__
+      );
+    }
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From f9f32cf8b84f3d3464e46c5ad5b8db9fcf47e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 22/32] fix: free the file name if reading a map fails

---
 src/kvtree_mpi_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index afced51..bd142af 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -494,6 +494,7 @@ static int kvtree_read_scatter_map(
 
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
+    kvtree_free(&newfile);
     rc = KVTREE_FAILURE;
     goto cleanup;
   }
-- 
2.43.0


From cd9df90212854cda26a13c6f6cf6113180d04a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 23/32] fix: do not report a completed read as failed and
 change the tree

---
 src/kvtree.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 0e73350..76c685e 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1557,10 +1557,9 @@ int kvtree_read_file(const char* file, kvtree* hash)
     rc = KVTREE_FAILURE;
   }
 
-  /* close the hash file */
-  if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
-    rc = KVTREE_FAILURE;
-  }
+  /* close the hash file, we already have its contents in the caller's
+   * hash, so failing to close it does not turn this into a failed read */
+  kvtree_close(file, fd);
 
   return rc;
 }
@@ -1614,11 +1613,9 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
       return KVTREE_FAILURE;
     }
 
-    /* close the file and release the lock */
-    rc = kvtree_close_with_unlock(file, fd);
-    if (rc != 0) {
-      return KVTREE_FAILURE;
-    }
+    /* close the file and release the lock, we already have its contents in the
+     * caller's hash, so failing to close it does not turn this into a failed read */
+    kvtree_close_with_unlock(file, fd);
 
     return KVTREE_SUCCESS;
   } else {
-- 
2.43.0


From c78c5734d51de395da3d9841e7990a88dca6bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 24/32] fix: release the message copy when there is no tree to
 queue it in

---
 src/kvtree_mpi.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index fc9ce37..32b6413 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -228,7 +228,10 @@ int kvtree_exchange_sendq(kvtree* send_hash, int rank, const kvtree* msg)
     /* no hash going to this rank yet, make a copy of the message and attach it */
     kvtree* copy = kvtree_new();
     kvtree_merge(copy, msg);
-    kvtree_setf(send_hash, copy, "%d", rank);
+    if (kvtree_setf(send_hash, copy, "%d", rank) == NULL) {
+      /* no send hash to attach the message to */
+      kvtree_delete(&copy);
+    }
   } else {
     /* got something already, just merge this message with outgoing data */
     kvtree_merge(hash, msg);
-- 
2.43.0


From 2ff1827a3050affa3332cd075f35229bac7bab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 25/32] Verification hook: segment size of gathered files
 (KVTREE_VERIF)

---
 src/kvtree_mpi_io.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index bd142af..3e166e0 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -23,6 +23,11 @@
 #define KVTREE_MAP_COUNT (0)
 #define KVTREE_MAP_RANKS (1)
 #define KVTREE_MAP_RANK  (2)
+#ifdef KVTREE_VERIF
+/* segment size to use instead of 1MB, if it is not zero */
+unsigned long kvtree_verif_segsize = 0;
+#endif
+
 static int pick_writer(
   int level,
   unsigned long count,
@@ -32,6 +37,11 @@ static int pick_writer(
 {
   /* use a segment size of 1MB */
   unsigned long segsize = 1024*1024;
+#ifdef KVTREE_VERIF
+  if (kvtree_verif_segsize > 0) {
+    segsize = kvtree_verif_segsize;
+  }
+#endif
 
   /* get communicator info */
   int rank, ranks;
-- 
2.43.0


From 642f7480d71fb5b8a8fb8b3bf32b86a3a5da83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 26/32] fix: check the level of every file in
 kvtree_read_scatter

A map that names itself or a map of the same level made every process
recurse for ever, and a map in place of a data file was returned as data.
---
 src/kvtree_mpi_io.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 3e166e0..bd8003c 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -389,9 +389,11 @@ int kvtree_write_gather(
   return KVTREE_FAILURE;
 }
 
+/* level is the level id the map must have, or -1 if it may be any */
 static int kvtree_read_scatter_map(
   const char*     prefix,
   int             depth,
+  int             level,
   int*            ptr_valid,
   char**          ptr_file,
   unsigned long*  ptr_offset,
@@ -495,7 +497,8 @@ static int kvtree_read_scatter_map(
    * which we assume to be a reader in all steps */
   int level_id = -1;
   if (valid) {
-    if (kvtree_util_get_int(hash, "LEVEL", &level_id) != KVTREE_SUCCESS)
+    if (kvtree_util_get_int(hash, "LEVEL", &level_id) != KVTREE_SUCCESS ||
+        level_id < 1 || (level != -1 && level_id != level))
     {
       rc = KVTREE_FAILURE;
     }
@@ -520,7 +523,7 @@ static int kvtree_read_scatter_map(
 
   /* recurse if we still have levels to read */
   if (level_id > 1) {
-    rc = kvtree_read_scatter_map(prefix, depth+1, ptr_valid, ptr_file, ptr_offset, comm);
+    rc = kvtree_read_scatter_map(prefix, depth+1, level_id-1, ptr_valid, ptr_file, ptr_offset, comm);
   }
 
 cleanup:
@@ -562,7 +565,7 @@ int kvtree_read_scatter(
     }
     offset = 0;
   }
-  if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
+  if (kvtree_read_scatter_map(prefix, 1, -1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
   {
     rc = KVTREE_FAILURE;
   }
@@ -589,6 +592,16 @@ int kvtree_read_scatter(
         rc = KVTREE_FAILURE;
       }
 
+      /* check that this is a file of rank data and not a map */
+      int level_id = -1;
+      kvtree_util_get_int(save, "LEVEL", &level_id);
+      if (readsize >= 0 && level_id != 0) {
+        kvtree_err("Expected rank data in %s @ %s:%d",
+          file, __FILE__, __LINE__
+        );
+        rc = KVTREE_FAILURE;
+      }
+
       /* check that the number of ranks match */
       int ranks = 0;
       kvtree_util_get_int(save, "RANKS", &ranks);
-- 
2.43.0


From 8eaafd45c83b20ca8ff442069390447bd3a8d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 27/32] fix: kvtree_print reports output it could not write

---
 src/kvtree_print.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kvtree_print.c b/src/kvtree_print.c
index 857e223..2d3565f 100644
--- a/src/kvtree_print.c
+++ b/src/kvtree_print.c
@@ -103,5 +103,11 @@ int main(int argc, char* argv[])
   }
   kvtree_delete(&hash);
 
+  /* the exit code has to report output that could not be written */
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "ERROR: Failed to write output\n");
+    rc = 1;
+  }
+
   return rc;
 }
-- 
2.43.0


From e89e5aedfc00ad0b3aa25ee3e00639db07039035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 28/32] fix: packing helpers accept a position whose end wraps
 around

A position within the last bytes below SIZE_MAX made the computed end
position wrap to a small value, which passed the check against the buffer
size, so that bytes outside of the buffer were read or written.
---
 src/kvtree_helpers.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index 07d624d..27c98cb 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -116,7 +116,7 @@ int kvtree_pack_uint16_t(void* buf, size_t buf_size, size_t* buf_pos, uint16_t v
   size_t pos_final = pos + sizeof(val);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to pack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -153,7 +153,7 @@ int kvtree_pack_uint32_t(void* buf, size_t buf_size, size_t* buf_pos, uint32_t v
   size_t pos_final = pos + sizeof(val);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to pack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -190,7 +190,7 @@ int kvtree_pack_uint64_t(void* buf, size_t buf_size, size_t* buf_pos, uint64_t v
   size_t pos_final = pos + sizeof(val);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to pack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -227,7 +227,7 @@ int kvtree_unpack_uint16_t(const void* buf, size_t buf_size, size_t* buf_pos, ui
   size_t pos_final = pos + sizeof(uint16_t);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to unpack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -265,7 +265,7 @@ int kvtree_unpack_uint32_t(const void* buf, size_t buf_size, size_t* buf_pos, ui
   size_t pos_final = pos + sizeof(uint32_t);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to unpack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
@@ -303,7 +303,7 @@ int kvtree_unpack_uint64_t(const void* buf, size_t buf_size, size_t* buf_pos, ui
   size_t pos_final = pos + sizeof(uint64_t);
 
   /* check that we won't overrun the buffer */
-  if (pos_final > buf_size) {
+  if (pos_final < pos || pos_final > buf_size) {
     kvtree_err("Attempting to unpack too many bytes into buffer @ %s:%d",
             __FILE__, __LINE__
     );
-- 
2.43.0


From 26620c4c32c42401747ed90647c614d3b9e76302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 29/32] fix: keep the debugger display function that nothing in
 the library calls

The function is static and only called by the debugger, which finds it by
its symbol, so that compilers drop it as unused (clang always, gcc when
optimizing) and a build with TVDISPLAY shows nothing.
---
 src/kvtree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 76c685e..e1536a4 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2143,6 +2143,9 @@ int kvtree_log(const kvtree* hash, int log_level, int indent)
 
 #include "tv_data_display.h"
 
+/* only the debugger calls this function, so keep
+ * the compiler from dropping it as unused */
+static int TV_ttf_display_type(const kvtree* hash) __attribute__((used));
 static int TV_ttf_display_type(const kvtree* hash)
 {
   if (hash == NULL) {
-- 
2.43.0


From 6609ccfe9fd1f0b9216d95a02e1be39275288377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:46 +0000
Subject: [PATCH 30/32] fix: debugger rows that do not fit into the display
 buffer

marshal_string did not advance past bytes that no longer fit and the
space left was computed from the wrong end, so a record that filled the
buffer was written past or cut in the middle of a row.  Drop the row
that does not fit and report TV_ttf_ec_buffer_exhausted.
---
 src/tv_data_display.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/tv_data_display.c b/src/tv_data_display.c
index c122da9..908844d 100644
--- a/src/tv_data_display.c
+++ b/src/tv_data_display.c
@@ -133,9 +133,10 @@ marshal_string ( char *buffer, size_t len, const char *s,
       ret_val++;
       if ( len > 1 )
         {
-          *cursor++ = *s++;
+          *cursor++ = *s;
           len--;
         }
+      s++;
     }
   if ( len > 0 )
     *cursor = '\0';
@@ -263,8 +264,8 @@ int TV_ttf_add_row(const char *field_name,
       TV_ttf_data_format_control = TV_FORMAT_APPEND_CALL;
     }
         
-  remaining = TV_ttf_data_buffer_ptr +
-              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_format_buffer;
+  remaining = TV_ttf_data_format_buffer +
+              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_buffer_ptr;
   
 /*
   out = snprintf(TV_ttf_data_buffer_ptr, 
@@ -274,8 +275,12 @@ int TV_ttf_add_row(const char *field_name,
   out = marshal_row ( TV_ttf_data_buffer_ptr, remaining,
                       field_name, type_name, value, 0, 0 );
   
-  if (out < 1)
-    return TV_ttf_ec_buffer_exhausted;
+  if (out < 1 || out >= remaining)
+    {
+      /* drop the part of the row that did fit */
+      *TV_ttf_data_buffer_ptr = '\0';
+      return TV_ttf_ec_buffer_exhausted;
+    }
     
   TV_ttf_data_buffer_ptr += out;
   
-- 
2.43.0


From 4b549a23b1269cb52d2674d30d989e73b5a1b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 31/32] fix: looking up the umask from several threads

Two threads in kvtree_getmode at the same time could each take the mask
the other one had set for the umask of the process, create files with
the wrong permissions and leave the wrong umask behind.
---
 src/kvtree_io.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index f731237..a67b158 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -36,18 +36,27 @@
 /* gettimeofday */
 #include <sys/time.h>
 
+/* pthread_mutex */
+#include <pthread.h>
+
 /*
 =========================================
 open/lock/close/read/write functions
 =========================================
 */
 
+/* the umask can only be read by changing it for the whole process,
+ * so threads must not do this at the same time */
+static pthread_mutex_t kvtree_umask_mutex = PTHREAD_MUTEX_INITIALIZER;
+
 /* returns user's current mode as determined by their umask */
 mode_t kvtree_getmode(int read, int write, int execute)
 {
   /* lookup current mask and set it back */
+  pthread_mutex_lock(&kvtree_umask_mutex);
   mode_t old_mask = umask(S_IWGRP | S_IWOTH);
   umask(old_mask);
+  pthread_mutex_unlock(&kvtree_umask_mutex);
 
   mode_t bits = 0;
   if (read) {
-- 
2.43.0


From a9f23fbd79bd57ca5b6ef52e7ad30850631454c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:03 +0000
Subject: [PATCH 32/32] fix: compute the checksum over images of more than 4
 GiB

---
 src/kvtree.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index e1536a4..db30341 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1109,6 +1109,20 @@ size_t kvtree_unpack(const char* buf, kvtree* hash)
 /** @name Read and write hash to a file */
 ///@{
 
+/** updates crc with size bytes of buf, since crc32() counts bytes in an
+ * unsigned int it is given large buffers in pieces */
+static uLong kvtree_crc32(uLong crc, const char* buf, size_t size)
+{
+  const size_t max_piece = 1UL << 30;
+  while (size > 0) {
+    size_t piece = (size < max_piece) ? size : max_piece;
+    crc = crc32(crc, (const Bytef*) buf, (uInt) piece);
+    buf  += piece;
+    size -= piece;
+  }
+  return crc;
+}
+
 /** computes the size needed to persist a hash
 includes room for header, data, and crc32 */
 size_t kvtree_persist_size(const kvtree* hash)
@@ -1161,7 +1175,7 @@ int kvtree_write_persist(void** ptr_buf, size_t* ptr_size, const kvtree* hash)
 
   /* compute the crc over the length of the file */
   uLong crc = crc32(0L, Z_NULL, 0);
-  crc = crc32(crc, (const Bytef*) buf, (uInt) size);
+  crc = kvtree_crc32(crc, buf, size);
 
   /* write the crc to the buffer */
   kvtree_pack_uint32_t(buf, filesize, &size, (uint32_t) crc);
@@ -1485,7 +1499,7 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
 
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
-    crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
+    crc = kvtree_crc32(crc, buf, filesize - sizeof(uint32_t));
 
     /* read the crc value */
     uint32_t crc_file_network, crc_file;
-- 
2.43.0

