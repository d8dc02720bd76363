From 7f26d09a8717545e8c6baa78db4f820b4d6211e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:28 +0000
Subject: [PATCH 01/35] fix: slide_back starts at the last element and stays
 inside the container

---
 src/vita/container/common.c | 2 +-
 src/vita/container/plist.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/common.c b/src/vita/container/common.c
index ea50633..376394a 100644
--- a/src/vita/container/common.c
+++ b/src/vita/container/common.c
@@ -129,7 +129,7 @@ void *vt_array_slide_back(struct VitaBaseArrayType *const vbat) {
     // check bounds
     if (vbat->slider_idx < vbat->len) {
         vbat->slider_idx++;
-        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx - 2) * vbat->elsize;
+        return (char*)vbat->ptr + (vbat->len - vbat->slider_idx) * vbat->elsize;
     }
 
     // reset the slider
diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dfcbba5..dd99da8 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -318,7 +318,7 @@ void *vt_plist_slide_back(vt_plist_t *const p) {
     // check bounds
     if (p->slider_idx < p->len) {
         p->slider_idx++;
-        return p->ptr2[p->len - p->slider_idx - 2];
+        return p->ptr2[p->len - p->slider_idx];
     }
 
     // reset the slider
-- 
2.43.0


From 3452cb5046e23cd119bc73f4da58cf09bee70e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:28 +0000
Subject: [PATCH 02/35] fix: duplicating or shrinking an empty vector or
 pointer list no longer terminates the process

---
 src/vita/container/plist.c | 13 ++++++++-----
 src/vita/container/vec.c   | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/vita/container/plist.c b/src/vita/container/plist.c
index dd99da8..6b68cae 100644
--- a/src/vita/container/plist.c
+++ b/src/vita/container/plist.c
@@ -42,7 +42,7 @@ vt_plist_t *vt_plist_dup(const vt_plist_t *const p, struct VitaBaseAllocatorType
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // allocate a new vt_vec_t instance
-    vt_plist_t *pdup = vt_plist_create(p->len, alloctr);
+    vt_plist_t *pdup = vt_plist_create(p->len ? p->len : 1, alloctr);
     pdup->len = p->len;
 
     // copy values
@@ -87,19 +87,22 @@ void vt_plist_shrink(vt_plist_t *const p) {
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(p->ptr2 != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // an empty list keeps room for one element
+    const size_t n = p->len ? p->len : 1;
+
     // if length and capacity are the same, exit the function
-    if (p->len == p->capacity) {
+    if (n == p->capacity) {
         return;
     }
 
     // shrink to length
     p->ptr2 = p->alloctr 
-        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, p->len * p->elsize) 
-        : VT_REALLOC(p->ptr2, p->len * p->elsize);
+        ? VT_ALLOCATOR_REALLOC(p->alloctr, p->ptr2, n * p->elsize) 
+        : VT_REALLOC(p->ptr2, n * p->elsize);
 
     
     // update
-    p->capacity = p->len;
+    p->capacity = n;
 }
 
 void vt_plist_resize(vt_plist_t *const p, const size_t n) {
diff --git a/src/vita/container/vec.c b/src/vita/container/vec.c
index feff9a0..90f985e 100644
--- a/src/vita/container/vec.c
+++ b/src/vita/container/vec.c
@@ -43,7 +43,7 @@ vt_vec_t *vt_vec_dup(const vt_vec_t *const v, struct VitaBaseAllocatorType *cons
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
     // allocate a new vt_vec_t instance
-    vt_vec_t *vdup = vt_vec_create(v->len, v->elsize, alloctr);
+    vt_vec_t *vdup = vt_vec_create(v->len ? v->len : 1, v->elsize, alloctr);
     vdup->len = v->len;
 
     // copy values
@@ -73,18 +73,21 @@ void vt_vec_shrink(vt_vec_t *const v) {
     VT_DEBUG_ASSERT(v != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(v->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
 
+    // an empty vector keeps room for one element
+    const size_t n = v->len ? v->len : 1;
+
     // if length and capacity are the same, exit the function
-    if (v->len == v->capacity) {
+    if (n == v->capacity) {
         return;
     }
 
     // shrink the array capacity to length
     v->ptr = v->alloctr 
-        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, v->len * v->elsize) 
-        : VT_REALLOC(v->ptr, v->len * v->elsize);
+        ? VT_ALLOCATOR_REALLOC(v->alloctr, v->ptr, n * v->elsize) 
+        : VT_REALLOC(v->ptr, n * v->elsize);
 
     // update
-    v->capacity = v->len;
+    v->capacity = n;
 }
 
 void vt_vec_clear(vt_vec_t *const v) {
-- 
2.43.0


From 91d5379a9a680569513e49e9deeb6b2edcc9acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 03/35] fix: stripping a string that consists only of
 strippable characters stays inside the string

---
 src/vita/container/str.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index b7b66a7..c48d0a4 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -778,7 +778,7 @@ void vt_str_strip(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr)) {
+    while (offset < *len && isspace(*curr)) {
         offset++;
         curr = p + offset;
     }
@@ -788,7 +788,7 @@ void vt_str_strip(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr)) {
+    while (*len > 0 && isspace(*curr)) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -812,7 +812,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
     const char *curr = p + offset;
 
     // strip leading whitespace and control symbols
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (offset < *len && (isspace(*curr) || ispunct(*curr))) {
         offset++;
         curr = p + offset;
     }
@@ -822,7 +822,7 @@ void vt_str_strip_punct(vt_str_t *const s) {
 
     // strip tailing whitespace and control symbols
     curr = p + (*len + offset - 1);
-    while (isspace(*curr) || ispunct(*curr)) {
+    while (*len > 0 && (isspace(*curr) || ispunct(*curr))) {
         (*len)--;
         curr = p + (*len + offset - 1);
     }
@@ -850,7 +850,8 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
 
     // strip leading whitespace and control symbols
     while (!stop) {
-        for (size_t i = 0; i < cLen; i++) {
+        stop = true;
+        for (size_t i = 0; i < cLen && offset < *len; i++) {
             if (*curr == c[i]) {
                 offset++;
                 curr = p + offset;
@@ -860,8 +861,6 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
 
                 break;
             }
-
-            stop = true;
         }
     }
 
@@ -872,7 +871,8 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
     stop = false;
     curr = p + (*len + offset - 1);
     while (!stop) {
-        for (size_t i = 0; i < cLen; i++) {
+        stop = true;
+        for (size_t i = 0; i < cLen && *len > 0; i++) {
             if (*curr == c[i]) {
                 (*len)--;
                 curr = p + (*len + offset - 1);
@@ -882,8 +882,6 @@ void vt_str_strip_c(vt_str_t *const s, const char *const c) {
 
                 break;
             }
-
-            stop = true;
         }
     }
 
-- 
2.43.0


From 3dd4b160643f052de43b8c6290d521a5c62c6771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 04/35] fix: removing or replacing the last substring uses its
 real position and tolerates its absence

---
 src/vita/container/str.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index c48d0a4..2623adc 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -571,9 +571,9 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
 
     // find the last instance of sep
     const size_t zLen = strlen(z);
-    char *p = strstr(s->ptr, z);
+    char *p = zLen ? strstr(s->ptr, z) : NULL;
     char *lastInstance = p;
-    while ((p = strstr(p + zLen, z)) != NULL) {
+    while (p != NULL && (p = strstr(p + zLen, z)) != NULL) {
         lastInstance = p;
     }
 
@@ -583,7 +583,7 @@ enum VitaStatus vt_str_remove_last(vt_str_t *s, const char *const z) {
     }
 
     // find the position of last substring instance
-    const ptrdiff_t last_instance_pos = (((char*)(s->ptr) + s->len * s->elsize) - lastInstance);
+    const ptrdiff_t last_instance_pos = lastInstance - (char*)(s->ptr);
 
     // remove the last instance
     vt_str_remove(s, last_instance_pos, zLen);
@@ -719,7 +719,7 @@ void vt_str_replace_last(vt_str_t *const s, const char *const sub, const char *c
     // find the last instance of sep
     const char *ptr = strstr(s->ptr, sub);
     const char *lastInstance = ptr;
-    while ((ptr = strstr(ptr + subLen, sub))) {
+    while (ptr != NULL && (ptr = strstr(ptr + subLen, sub))) {
         lastInstance = ptr;
     }
 
-- 
2.43.0


From 535fd477e35782859e5a76d238e495f9f9a9931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 05/35] fix: searching for or removing all instances of an
 empty substring terminates

---
 src/vita/container/str.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 2623adc..37ada67 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -597,6 +597,11 @@ enum VitaStatus vt_str_remove_all(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // there are no instances of an empty substring
+    if (*z == '\0') {
+        return VT_STATUS_OPERATION_SUCCESS;
+    }
+
     // remove all instances of substring
     while (vt_str_remove_first(s, z) == VT_STATUS_OPERATION_SUCCESS);
 
@@ -912,6 +917,11 @@ size_t vt_str_can_find(const vt_str_t *const s, const char *sub) {
     const size_t subLen = strlen(sub);
     VT_ENFORCE(subLen <= vt_str_len(s), "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // there are no instances of an empty substring
+    if (!subLen) {
+        return 0;
+    }
+
     size_t count = 0;
     const char *p = vt_str_z(s);
     while ((p = strstr(p, sub)) != NULL) {
-- 
2.43.0


From 37b0bba25bea8f3f5ae68ee5966da21069b5b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 06/35] fix: splitting a string that ends in repeated
 separators stays inside the string

---
 src/vita/container/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 37ada67..c281f06 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -973,6 +973,9 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
         // count copy length
         const size_t copyLen = strlen(head) - (current == NULL ? 0 : strlen(current));
         if (copyLen == 0) { // if head == current, move head by sepLen (if sep is in the begining)
+            if (current == NULL) {
+                break;
+            }
             head += sepLen;
             continue;
         } else {
@@ -984,7 +987,7 @@ vt_plist_t *vt_str_split(vt_plist_t *ps, const vt_str_t *const s, const char *co
             vt_plist_push_back(p, tempStr);
             
             // update head
-            head = current + sepLen;
+            if (current != NULL) head = current + sepLen;
         }
 
         // break from loop when no more sep is found or we are at the end of string
-- 
2.43.0


From c75d91480d925b667960400e0f434e2e9e51d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 07/35] fix: splitting between two substrings looks for the
 right one after the left one and accepts an empty result

---
 src/vita/container/str.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index c281f06..215e358 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1011,8 +1011,8 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         return NULL;
     }
 
-    // find r - right substring
-    const char *const rsub = strstr(z, zr);
+    // find r - right substring after the left one
+    const char *const rsub = strstr(lsub + strlen(zl), zr);
     if (rsub == NULL) {
         return NULL;
     }
@@ -1023,18 +1023,14 @@ vt_str_t *vt_str_split_between(vt_str_t *const s, const char *const z, const cha
         : s;
     vt_str_clear(st);
 
-    // check if lsub < rsub
-    if (lsub < rsub) {
-        ptrdiff_t sub_len = rsub - lsub - strlen(zl);
+    // append sub
+    const size_t sub_len = rsub - lsub - strlen(zl);
+    if (sub_len > 0) {
         vt_str_resize(st, sub_len);
-
-        // append sub
         vt_str_append_n(st, rsub - sub_len, sub_len);
-
-        return st;
     }
 
-    return NULL;
+    return st;
 }
 
 vt_str_t *vt_str_join(vt_str_t *const s, const char *const sep, const vt_plist_t *const p) {
-- 
2.43.0


From e159a174a7cd583f3da5bc9e2f130abb4c26644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 08/35] fix: inserting n characters beyond the end of a string
 is rejected

---
 src/vita/container/str.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 215e358..9f5bf30 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -452,6 +452,13 @@ void vt_str_insert_n(vt_str_t *const s, const char *z, const size_t at, const si
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(
+        at <= s->len,
+        "%s: Inserts at %zu, but vt_str_t length is %zu!\n", 
+        vt_status_to_str(VT_STATUS_ERROR_OUT_OF_BOUNDS_ACCESS), 
+        at, 
+        s->len
+    );
 
     // check if new memory needs to be allocated
     const size_t hasSpace = vt_str_has_space(s);
-- 
2.43.0


From 94664d6623e74d959b7830693b1a7ad7811dd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:41 +0000
Subject: [PATCH 09/35] fix: growing a view string is rejected instead of
 writing past the viewed text

---
 src/vita/container/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 9f5bf30..7f450c9 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -345,6 +345,7 @@ void vt_str_append_n(vt_str_t *const s, const char *z, const size_t n) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(n > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // check if new memory needs to be allocated
     if (vt_str_has_space(s) < n) {
@@ -373,6 +374,7 @@ void vt_str_insert(vt_str_t *const s, const char *z, const size_t at) {
         at, 
         s->len
     );
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // check if new memory needs to be allocated
     const size_t zLen = strlen(z);
@@ -459,6 +461,7 @@ void vt_str_insert_n(vt_str_t *const s, const char *z, const size_t at, const si
         at, 
         s->len
     );
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // check if new memory needs to be allocated
     const size_t hasSpace = vt_str_has_space(s);
@@ -1444,6 +1447,7 @@ static vt_str_t *vt_str_vfmt_append(vt_str_t *s, const char *const fmt, va_list
     VT_DEBUG_ASSERT(s != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_ENFORCE(!s->is_view, "%s: Cannot modify a viewable-only object!\n", vt_status_to_str(VT_STATUS_ERROR_IS_VIEW));
 
     // format string
     va_list args2; va_copy(args2, args); 
-- 
2.43.0


From b9304113f63649cf9f5ba32b02dbe4e75547bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:04 +0000
Subject: [PATCH 10/35] fix: inserting after a substring at the very end of a
 string appends

---
 src/vita/container/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index 7f450c9..a2205c4 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -512,8 +512,10 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
         return;
     }
 
-    // insert z
-    vt_str_insert(s, z, idx + strlen(sub));
+    // insert z; if the substring is at the very end, append instead
+    const size_t at = idx + strlen(sub);
+    if (at < vt_str_len(s)) vt_str_insert(s, z, at);
+    else if (*z != '\0') vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From 656100441dfbc935192b5b97567cefa8177a178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:25 +0000
Subject: [PATCH 11/35] fix: an empty C string can be created, duplicated, set
 and appended

---
 src/vita/container/str.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index a2205c4..e377e25 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -24,10 +24,10 @@ vt_str_t *vt_str_create(const char *const z, struct VitaBaseAllocatorType *const
 
     // create str
     const size_t zLen = strlen(z);
-    vt_str_t *s = vt_str_create_len(zLen, alloctr);
+    vt_str_t *s = vt_str_create_len(zLen ? zLen : 1, alloctr);
 
     // set z to str
-    vt_str_set_n(s, z, zLen);
+    vt_str_set(s, z);
 
     return s;
 }
@@ -233,6 +233,12 @@ void vt_str_set(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // an empty string clears
+    if (*z == '\0') {
+        vt_str_clear(s);
+        return;
+    }
+
     vt_str_set_n(s, z, strlen(z));
 }
 
@@ -263,7 +269,7 @@ enum VitaStatus vt_str_set_at(vt_str_t *const s, const char *z, const size_t at)
     vt_str_remove(s, at, s->len - at);
 
     // append new string
-    vt_str_append_n(s, z, zLen);
+    vt_str_append(s, z);
 
     return VT_STATUS_OPERATION_SUCCESS;
 }
@@ -318,6 +324,11 @@ void vt_str_append(vt_str_t *const s, const char *z) {
     VT_DEBUG_ASSERT(s->ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_IS_NULL));
     VT_DEBUG_ASSERT(z != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
+    // nothing to append
+    if (*z == '\0') {
+        return;
+    }
+
     vt_str_append_n(s, z, strlen(z));
 }
 
@@ -515,7 +526,7 @@ void vt_str_insert_after(vt_str_t *const s, const char *const sub, const char *c
     // insert z; if the substring is at the very end, append instead
     const size_t at = idx + strlen(sub);
     if (at < vt_str_len(s)) vt_str_insert(s, z, at);
-    else if (*z != '\0') vt_str_append(s, z);
+    else vt_str_append(s, z);
 }
 
 void vt_str_remove(vt_str_t *const s, const size_t from, size_t n) {
-- 
2.43.0


From 7daeb292c47e026e05283e5bae32f5c9b312f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:09 +0000
Subject: [PATCH 12/35] fix: vt_str_vfmt_set counts the terminator as text and
 misses a formatting failure

---
 src/vita/container/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/container/str.c b/src/vita/container/str.c
index e377e25..5eb1e56 100644
--- a/src/vita/container/str.c
+++ b/src/vita/container/str.c
@@ -1422,7 +1422,7 @@ static vt_str_t *vt_str_vfmt_set(vt_str_t *s, const char *const fmt, va_list arg
     va_list args2; va_copy(args2, args); 
     {
         // check format length
-        const int64_t len = vsnprintf(NULL, (size_t)0, fmt, args) + 1;
+        const int64_t len = vsnprintf(NULL, (size_t)0, fmt, args);
         if (len < 0) {
             VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
             va_end(args2);
-- 
2.43.0


From abe99912c5b2fd6a2fda515975a55457e5a0cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:13 +0000
Subject: [PATCH 13/35] fix: span range [from; to) may start at 0 and must not
 be empty or reversed

---
 src/vita/container/span.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vita/container/span.c b/src/vita/container/span.c
index c2a7892..6482021 100644
--- a/src/vita/container/span.c
+++ b/src/vita/container/span.c
@@ -16,8 +16,7 @@ vt_span_t vt_span_from(void *ptr, const size_t length, const size_t elsize) {
 vt_span_t vt_span_from_to(void *ptr, const size_t from_idx, const size_t to_idx, const size_t elsize) {
     // check for invalid input
     VT_DEBUG_ASSERT(ptr != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(from_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
-    VT_DEBUG_ASSERT(to_idx > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
+    VT_DEBUG_ASSERT(from_idx < to_idx, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(elsize > 0, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
     return (vt_span_t) {
-- 
2.43.0


From 5b1dfa7a5602b60837fe7896dcff8b8de3a25ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:25 +0000
Subject: [PATCH 14/35] fix: vt_math_gcd and vt_math_lcm divide by zero when an
 argument is 0

---
 src/vita/math/math.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 9d04a21..1a6f5ca 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -102,16 +102,16 @@ int64_t vt_math_gcd(const int64_t a, const int64_t b) {
     high_val = a >= b ? a : b;
 
     // find gcd
-    do {
+    while (low_val != 0) {
         rem = high_val % low_val;
         high_val = low_val;
         low_val = rem;
-    } while (rem != 0);
+    }
 
     return high_val;
 }
 
 int64_t vt_math_lcm(int64_t a, int64_t b) {
-    return a / vt_math_gcd(a, b) * b;
+    return (a == 0 || b == 0) ? 0 : a / vt_math_gcd(a, b) * b;
 }
 
-- 
2.43.0


From 0c111d0be325b64bb941246aa0ac1d262fc0264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:25 +0000
Subject: [PATCH 15/35] fix: vt_math_is_close ignores the documented default
 for a negative tolerance

---
 src/vita/math/math.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vita/math/math.c b/src/vita/math/math.c
index 1a6f5ca..8c8d57b 100644
--- a/src/vita/math/math.c
+++ b/src/vita/math/math.c
@@ -93,7 +93,8 @@ float vt_math_random_f32_normal(const float mu, const float std) {
 }
 
 bool vt_math_is_close(const float lhs, const float rhs, const float rtol) {
-    return fabs(lhs - rhs) < fabs(rtol);
+    const float tol = rtol < 0 ? __FLT_EPSILON__ : rtol;
+    return fabs(lhs - rhs) < tol;
 }
 
 int64_t vt_math_gcd(const int64_t a, const int64_t b) {
-- 
2.43.0


From 691fadc66a815b1ed3d8024306ec1544a776cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 16/35] fix: century years that are not multiples of 400 are
 not leap years

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 56198b8..8216ad0 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -199,7 +199,7 @@ int16_t vt_datetime_find_days_in_year(const struct VitaDateTime vdt) {
 
 bool vt_datetime_is_leap_year(const struct VitaDateTime vdt) {
     const int16_t year = vdt.year < 0 ? VT_DATETIME_MIN_YEAR_RANGE : vdt.year;
-    return (year % 4 == 0);
+    return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
 }
 
 bool vt_datetime_is_valid_text(const char *const timebuf) {
-- 
2.43.0


From 56219c5d220333d6a33f22935d28831129d52dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 17/35] fix: week day and year day of dates before 1970 are
 reported as failures

---
 src/vita/time/datetime.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index 8216ad0..cbbe302 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -151,9 +151,10 @@ struct VitaDateTime vt_datetime_from_text_iso_ext(const char *timebuf) {
 
 int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1;   // set by mktime upon success (its return value is negative for dates before 1970)
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("Invalid datetime format.\n");
         return -1;
     }
 
@@ -162,9 +163,10 @@ int16_t vt_datetime_find_year_day(const struct VitaDateTime vdt) {
 
 int16_t vt_datetime_find_week_day(const struct VitaDateTime vdt) {
     struct tm stm = vt_datetime_vdt_to_tm(vdt);
-    time_t ret = mktime(&stm);
-    if (ret < 0) {
-        VT_DEBUG_PRINTF("%s: Invalid datetime format.\n");
+    stm.tm_wday = -1;   // set by mktime upon success (its return value is negative for dates before 1970)
+    mktime(&stm);
+    if (stm.tm_wday < 0) {
+        VT_DEBUG_PRINTF("Invalid datetime format.\n");
         return -1;
     }
 
-- 
2.43.0


From 7cf41768773d64e08751df6567788270b4983335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 18/35] fix: an unset or invalid year is read as 3800 instead
 of 1900

---
 src/vita/time/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index cbbe302..e76eb0d 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -327,7 +327,7 @@ static struct VitaDateTime vt_datetime_tm_to_vdt(const struct tm stm) {
 */
 static struct tm vt_datetime_vdt_to_tm(const struct VitaDateTime vdt) {
     return (struct tm) {
-        .tm_year = vdt.year ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : VT_DATETIME_MIN_YEAR_RANGE,
+        .tm_year = vdt.year > 0 ? (vdt.year - VT_DATETIME_MIN_YEAR_RANGE) : 0,
         .tm_mon = vdt.month - 1,
         .tm_mday = vdt.month_day,
         .tm_hour = vdt.hour, 
-- 
2.43.0


From 00523cbe73a34a359c8ef25f4d0f89d96212fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:19 +0000
Subject: [PATCH 19/35] fix: timestamp check reads past the end of short text
 and accepts wrong separators

---
 src/vita/time/datetime.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vita/time/datetime.c b/src/vita/time/datetime.c
index e76eb0d..942c994 100644
--- a/src/vita/time/datetime.c
+++ b/src/vita/time/datetime.c
@@ -395,8 +395,10 @@ static bool vt_datetime_is_valid_fmt(const char *const timebuf, const char *cons
     VT_DEBUG_ASSERT(timebuf != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
     VT_DEBUG_ASSERT(fmt != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    for (size_t i = 0; i < len; i++) {
-        if (fmt[i] != 'T' && isalpha(fmt[i]) && !isdigit(timebuf[i])) {
+    // the last character of `fmt` is its terminator
+    for (size_t i = 0; i + 1 < len; i++) {
+        const bool is_field = fmt[i] != 'T' && isalpha(fmt[i]);
+        if (is_field ? !isdigit(timebuf[i]) : timebuf[i] != fmt[i]) {
             return false;
         }
     }
-- 
2.43.0


From e629c3e235639f6757bb38f789f0bd2f54d8ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:22 +0000
Subject: [PATCH 20/35] fix: close the socket when server or client start-up
 fails

---
 src/vita/network/sockets.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vita/network/sockets.c b/src/vita/network/sockets.c
index a203c27..199ac57 100644
--- a/src/vita/network/sockets.c
+++ b/src/vita/network/sockets.c
@@ -44,6 +44,7 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     const int32_t opt = 1;
     if (setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR, (char*)&opt, sizeof(int)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to set socket options!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_OPTIONS;
     }
 
@@ -56,12 +57,14 @@ vt_socket_t vt_socket_startup_server(const enum VitaSocketType type, const int32
     // forcefully bind the server socket address
     if (bind(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to bind the socket!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_BIND;
     }
 
     // listen
     if (type == VT_SOCKET_TYPE_TCP && listen(sock_fd , backlog) < 0) {
         VT_DEBUG_PRINTF("%s: Error listening for connections!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_LISTEN;
     }
 
@@ -85,6 +88,7 @@ vt_socket_t vt_socket_startup_client(const enum VitaSocketType type, const struc
     // connect to remote server
     if (connect(sock_fd, (struct sockaddr*)&server, sizeof(server)) < 0) {
         VT_DEBUG_PRINTF("%s: Failed to connect to server!\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        vt_socket_close(sock_fd);
         return VT_SOCKET_STATUS_ERROR_CONNECT;
     }
 
-- 
2.43.0


From cce8acc3e6ec99b82a9851a481aba8ac85720025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 21/35] fix: reading an empty file terminates the process

---
 src/vita/system/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index de6d17f..7fcb839 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -26,7 +26,7 @@ vt_str_t *vt_file_read(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create("", alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
@@ -74,7 +74,7 @@ vt_str_t *vt_file_readb(const char *const filename, struct VitaBaseAllocatorType
     }
 
     // create data buffer
-    vt_str_t *sbuffer = vt_str_create_len(fsize, alloctr);
+    vt_str_t *sbuffer = fsize > 0 ? vt_str_create_len(fsize, alloctr) : vt_str_create("", alloctr);
     if (sbuffer == NULL) {
         VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_ERROR_ALLOCATION));
 
-- 
2.43.0


From be1fc42b45085da2b7209ae1ec469663a5c5b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 22/35] fix: file writing reports success when the data could
 not be written

---
 src/vita/system/fileio.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vita/system/fileio.c b/src/vita/system/fileio.c
index 7fcb839..c95470b 100644
--- a/src/vita/system/fileio.c
+++ b/src/vita/system/fileio.c
@@ -210,13 +210,15 @@ bool vt_file_writef(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
     
     // close file
-    fclose(fp); 
+    if (fclose(fp) != 0) {
+        status = false;
+    }
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
@@ -234,16 +236,20 @@ bool vt_file_writefln(const char *const filename, const char *const fmt, ...) {
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
-    fprintf(fp, "\n");
+    if (fprintf(fp, "\n") < 0) {
+        status = false;
+    }
     
     // close file
-    fclose(fp); 
+    if (fclose(fp) != 0) {
+        status = false;
+    }
 
-    return true;
+    return status;
 }
 
 bool vt_file_writefc(const char *const filename, const bool use_binary_mode, const bool use_append_mode, const bool add_ln, const char *const fmt, ...) {
@@ -261,18 +267,20 @@ bool vt_file_writefc(const char *const filename, const bool use_binary_mode, con
     // write to file
     va_list args;
     va_start(args, fmt);
-    vfprintf(fp, fmt, args);
+    bool status = vfprintf(fp, fmt, args) >= 0;
     va_end(args);
 
     // add a new line
-    if (add_ln) {
-        fprintf(fp, "\n");
+    if (add_ln && fprintf(fp, "\n") < 0) {
+        status = false;
     }
     
     // close file
-    fclose(fp); 
+    if (fclose(fp) != 0) {
+        status = false;
+    }
 
-    return true;
+    return status;
 }
 
 
-- 
2.43.0


From d5319f338c44794a50d5da9d8be2d25444a996c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 23/35] fix: vt_path_get_cwd hands libc memory to the given
 allocator and exits on failure

---
 src/vita/system/path.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ad4ff4f..69b32dc 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -25,7 +25,17 @@ vt_str_t *vt_path_build_n(vt_str_t *const s, const size_t n, ...) {
 }
 
 vt_str_t *vt_path_get_cwd(struct VitaBaseAllocatorType *alloctr) {
-    return vt_str_take_ownership(getcwd(NULL, 0), alloctr);
+    char *const z = getcwd(NULL, 0);
+    if (z == NULL) {
+        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
+        return NULL;
+    }
+
+    // copy into memory owned by the allocator
+    vt_str_t *const s = vt_str_create(z, alloctr);
+    free(z);
+
+    return s;
 }
 
 bool vt_path_exists(const char *const z) {
-- 
2.43.0


From ac563b792aa3fcdaf84f1c498717bdd114ba25ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 24/35] fix: vt_path_pop reads and writes before the start of
 an empty path

---
 src/vita/system/path.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 69b32dc..8aeed30 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -545,6 +545,9 @@ void vt_path_pop(char *const z) {
     
     // check if path ends with path separator
     size_t len = vt_str_len(&s);
+    if (len == 0) {
+        return;
+    }
     if (z[len-1] == VT_PATH_SEPARATOR[0]) {
         z[len-1] = '\0';
         return;
-- 
2.43.0


From c3d6340616a54b1736b6bade8ecff68026e408e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 25/35] fix: vt_path_basename yields garbage without an inner
 separator and copies overlapping text

---
 src/vita/system/path.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 8aeed30..ea7329b 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -244,11 +244,11 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         : s;
 
     // find the basename
-    const char *ptr = NULL;
+    const char *ptr = z;
     const size_t zLen = strlen(z);
     for (size_t i = zLen - 1; i > 0; i--) {
-        if (z[i] == VT_PATH_SEPARATOR[0] && i != zLen - 1) {
-            ptr = &z[i+1];
+        if (z[i-1] == VT_PATH_SEPARATOR[0]) {
+            ptr = &z[i];
             break;
         }
     }
@@ -259,11 +259,10 @@ vt_str_t *vt_path_basename(vt_str_t *const s, const char *const z) {
         vt_str_reserve(st, zLen - sLen);
     }
 
-    // save the basename
-    if (ptr) {
-        vt_str_clear(st);
-        vt_str_append(st, ptr);
-    }
+    // save the basename (z may be the text of s itself)
+    const size_t ptrLen = strlen(ptr);
+    memmove(st->ptr, ptr, ptrLen + 1);
+    st->len = ptrLen;
 
     return st;
 }
-- 
2.43.0


From 3b1a0c9edf039d494e471091a30df7fdfe29b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 26/35] fix: vt_path_mkdir_parents reports success when a
 directory could not be created

---
 src/vita/system/path.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index ea7329b..612b843 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -349,7 +349,10 @@ bool vt_path_mkdir_parents(const char *const z) {
         vt_str_append(sfull, VT_PATH_SEPARATOR);
         
         // make that directory
-        vt_path_mkdir(vt_str_z(sfull));
+        status = vt_path_mkdir(vt_str_z(sfull));
+        if (!status) {
+            break;
+        }
     }
 
 vt_label_path_mkdir_parents__:
-- 
2.43.0


From 0b4d3912841f70544e96dbd5a915203ac13d4db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 27/35] fix: vt_path_rmdir_recurse follows symbolic links and
 deletes files outside of the directory

---
 src/vita/system/path.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 612b843..8c4541f 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -1,5 +1,15 @@
 #include "vita/system/path.h"
 
+/// checks if path is a symbolic link
+static bool vt_path_is_link(const char *const z) {
+    #if defined(_WIN32) || defined(_WIN64)
+        return false;
+    #else
+        struct stat info;
+        return (lstat(z, &info) == 0 && S_ISLNK(info.st_mode));
+    #endif
+}
+
 vt_str_t *vt_path_build(vt_str_t *const s, const vt_plist_t *const p) {
     return vt_str_join(s, VT_PATH_SEPARATOR, p);
 }
@@ -188,7 +198,7 @@ vt_plist_t *vt_path_dir_list_recurse(vt_plist_t *const p, const char *const z, c
         vt_str_append(st, dirtree->d_name);
 
         // check if current path is a directory; if false, then break
-        if (vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
+        if (!vt_path_is_link(vt_str_z(st)) && vt_path_is_dir(vt_str_z(st)) && vt_path_dir_list_recurse(pl, vt_str_z(st), ignoreDotFiles) == NULL) {
             break;
         }
 
@@ -420,8 +430,10 @@ bool vt_path_rmdir_recurse(const char *const z) {
     // checking its type (file or directory)
     vt_str_t *path = NULL;
     while ((path = vt_plist_slide_front(dir_list)) != NULL) {
-        // remove file/directory
-        status = vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path));
+        // remove file/directory (a symbolic link is removed itself, never what it leads to)
+        status = vt_path_is_link(vt_str_z(path)) 
+            ? remove(vt_str_z(path)) == 0
+            : (vt_path_is_dir(vt_str_z(path)) ? vt_path_rmdir(vt_str_z(path)) : vt_path_remove(vt_str_z(path)));
 
         // check status
         if (!status) {
-- 
2.43.0


From 70d3e6d2005e67fbf8e33128a31397515ba79496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 28/35] fix: vt_path_rmdir_recurse ignores that the directory
 itself could not be removed

---
 src/vita/system/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 8c4541f..f2fe7ea 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -440,7 +440,7 @@ bool vt_path_rmdir_recurse(const char *const z) {
             goto vt_path_rmdir_recurse_cleanup__;
         }  
     }
-    vt_path_rmdir(z); // remove the folder when done with its contents
+    status = vt_path_rmdir(z); // remove the folder when done with its contents
 
 vt_path_rmdir_recurse_cleanup__:
     // free all strings in dir_list
-- 
2.43.0


From 0cab482a1e2d8e6a21bf8366468e44cc64388608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:27 +0000
Subject: [PATCH 29/35] fix: vt_path_mkdir_parents does not create a directory
 given without parents

---
 src/vita/system/path.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index f2fe7ea..dd3a4eb 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -342,9 +342,8 @@ bool vt_path_mkdir_parents(const char *const z) {
     // split string into directories
     dir_list = vt_str_split(NULL, s, VT_PATH_SEPARATOR);
     if (dir_list == NULL) {
-        VT_DEBUG_PRINTF("%s\n", vt_status_to_str(VT_STATUS_OPERATION_FAILURE));
-
-        status = false;
+        // no path separator: a single directory
+        status = vt_path_mkdir(z);
         goto vt_label_path_mkdir_parents__;
     }
 
-- 
2.43.0


From 503e8fe04df3e7df9678c363c00f51944a03ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:56 +0000
Subject: [PATCH 30/35] fix: vt_path_expand_tilda terminates the process for a
 lone tilda

---
 src/vita/system/path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index dd3a4eb..743281d 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -514,8 +514,8 @@ vt_str_t *vt_path_expand_tilda(const char *const z, struct VitaBaseAllocatorType
     }
 
     // expand tilda
-    vt_str_remove(s_tilda, (size_t)tilda_pos, 1);           // remove tilda
-    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);  // insert HOME path inplace of tilda
+    vt_str_insert(s_tilda, z_homepath, (size_t)tilda_pos);                 // insert HOME path before tilda
+    vt_str_remove(s_tilda, (size_t)tilda_pos + strlen(z_homepath), 1);  // remove tilda
 
     return s_tilda;
 }
-- 
2.43.0


From 73eaa14472f4a66df5721aac47520061cbc7d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:11 +0000
Subject: [PATCH 31/35] fix: vt_path_get_this_exe_location leaves the path
 without a terminator

---
 src/vita/system/path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 743281d..3ba0b7a 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -545,6 +545,7 @@ vt_str_t *vt_path_get_this_exe_location(struct VitaBaseAllocatorType *alloctr) {
         return NULL;
     }
     spath->len = pathLen;
+    ((char*)spath->ptr)[pathLen] = '\0';
 
     return spath;
 }
-- 
2.43.0


From f8a77f45555be97103ce6a60a0dc0b0a3bc44737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:11 +0000
Subject: [PATCH 32/35] fix: vt_path_dir_free leaks the strings before the
 position of the slider

---
 src/vita/system/path.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/vita/system/path.c b/src/vita/system/path.c
index 3ba0b7a..6df1139 100644
--- a/src/vita/system/path.c
+++ b/src/vita/system/path.c
@@ -226,12 +226,10 @@ void vt_path_dir_free(vt_plist_t *p) {
     // check for invalid input
     VT_DEBUG_ASSERT(p != NULL, "%s\n", vt_status_to_str(VT_STATUS_ERROR_INVALID_ARGUMENTS));
 
-    // check if list is not empty
-    if (vt_plist_len(p)) {
-        vt_str_t *item = NULL;
-        while((item = vt_plist_slide_front(p)) != NULL) {
-            vt_str_destroy(item);
-        }
+    // free all strings (the slider may have been used on this list already)
+    const size_t len = vt_plist_len(p);
+    for (size_t i = 0; i < len; i++) {
+        vt_str_destroy((vt_str_t*)(vt_plist_get(p, i)));
     }
 
     // destory list itself
-- 
2.43.0


From a7f76ac365f3105f663636710d7265ed545d80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:52 +0000
Subject: [PATCH 33/35] fix: do not close stderr when the debug output file
 cannot be opened

---
 src/vita/util/debug.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/debug.c b/src/vita/util/debug.c
index 2941e71..3f6232c 100644
--- a/src/vita/util/debug.c
+++ b/src/vita/util/debug.c
@@ -34,7 +34,7 @@ void vt_debug_assert(
                 fprintf(fp, "\n");
 
                 // close the file, if needed
-                if (vt_debug_output_filename != NULL) { fclose(fp); }
+                if (fp != stderr) { fclose(fp); }
             }
         }
         va_end(args);
@@ -65,7 +65,7 @@ void vt_debug_printf(const char *const subject, const char *const zfmt, ...) {
             vfprintf(fp, zfmt, args);
 
             // close the file, if needed
-            if (vt_debug_output_filename != NULL) { fclose(fp); }
+            if (fp != stderr) { fclose(fp); }
         }
     }
     va_end(args);
-- 
2.43.0


From f3b581741c21e15c1e5df440de39a996d7bc976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:52 +0000
Subject: [PATCH 34/35] fix: log to stderr when the log file cannot be opened,
 and still exit on fatal and assert

---
 src/vita/util/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vita/util/log.c b/src/vita/util/log.c
index 824f58c..99b6d27 100644
--- a/src/vita/util/log.c
+++ b/src/vita/util/log.c
@@ -47,8 +47,8 @@ void vt_log(const char *const zfilename, enum VitaLogLevel log_level, const bool
             // if `NULL` log to `stderr`, otherwise to a file
             FILE *fp = (logger_filename[0] == '\0') ? stderr : fopen(logger_filename, "a");
             if (fp == NULL) {
-                VT_DEBUG_PRINTF("%s:%i: Failed to open a file <%s>!\n", file, line, logger_filename);
-                return;
+                VT_DEBUG_PRINTF("%s:%zu: Failed to open a file <%s>!\n", file, line, logger_filename);
+                fp = stderr;
             }
 
             // logging data
-- 
2.43.0


From 4aa4c85d844262a344710dd7e783fc7052e21231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:52 +0000
Subject: [PATCH 35/35] fix: C string options overran the reallocated buffer
 and kept the tail of a longer old value

---
 src/vita/util/argopt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vita/util/argopt.c b/src/vita/util/argopt.c
index 6a8657d..cad9033 100644
--- a/src/vita/util/argopt.c
+++ b/src/vita/util/argopt.c
@@ -225,15 +225,15 @@ static void vt_argopt_assign_value(vt_argopt_t *const opt, const char *const val
                     // check we need to reallocate
                     if (len > zLen) {
                         char *ztmp = alloctr 
-                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len - zLen)
-                            : VT_REALLOC(*zvalue, len - zLen);
+                            ? VT_ALLOCATOR_REALLOC(alloctr, *zvalue, len + 1)
+                            : VT_REALLOC(*zvalue, len + 1);
 
                         // save
                         *zvalue = ztmp;
                     }
 
-                    // copy values
-                    memcpy(*zvalue, value, len);
+                    // copy values, including the null terminator
+                    memcpy(*zvalue, value, len + 1);
                 }
             }
             break;
-- 
2.43.0

