From 98a3cdb4e2f0e7ccfb59827dbb54c003fb79f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 01/18] fix: +0 === -0 is true

---
 mjs.c          | 6 +++---
 src/mjs_exec.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 49c3d92..336af7b 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8195,10 +8195,10 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
     /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
+     * Numbers with equal bit patterns are handled above; what is left is
+     * +0 and -0, which are equal although their representations differ
      */
-    ret = 0;
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index bd48fea..51d485a 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -224,10 +224,10 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
     /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
+     * Numbers with equal bit patterns are handled above; what is left is
+     * +0 and -0, which are equal although their representations differ
      */
-    ret = 0;
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
-- 
2.43.0


From 6463cde7eb971ce59f2c53b432121693defa7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 02/18] fix: a compound assignment evaluates to the assigned
 value

---
 mjs.c          | 4 ++--
 src/mjs_exec.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 336af7b..fb28e48 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8179,8 +8179,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 51d485a..1a45b77 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -208,8 +208,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
-- 
2.43.0


From ab6367bdbbb2d4c13d272826b1aae3ab28f8b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 03/18] fix: compare strings and property names past embedded
 NUL bytes

---
 mjs.c            | 4 ++--
 src/mjs_object.c | 2 +-
 src/mjs_string.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index fb28e48..027a76d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11666,7 +11666,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && (len == 0 || memcmp(s, name, len) == 0)) {
       if (prev) {
         prev->next = prop->next;
       } else {
@@ -13241,7 +13241,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return len == 0 ? 0 : memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 72db6e2..f14ffe4 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -231,7 +231,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && (len == 0 || memcmp(s, name, len) == 0)) {
       if (prev) {
         prev->next = prop->next;
       } else {
diff --git a/src/mjs_string.c b/src/mjs_string.c
index b8f9ce1..19c6f2b 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -224,7 +224,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return len == 0 ? 0 : memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-- 
2.43.0


From da0719d150ba2fe689aded57e9fd4f66f5420c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 04/18] fix: properties set by a short foreign string are found
 again

---
 mjs.c            | 5 +++--
 src/mjs_object.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 027a76d..2c713f9 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11623,9 +11623,10 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. Short names are always stored inlined,
+     * because mjs_get_own_property() looks them up by value.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) || name_len <= 5) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
diff --git a/src/mjs_object.c b/src/mjs_object.c
index f14ffe4..bdc122a 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -188,9 +188,10 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. Short names are always stored inlined,
+     * because mjs_get_own_property() looks them up by value.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) || name_len <= 5) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
-- 
2.43.0


From 28bb1635a57afe3815c87ed528b3e6cb0955c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 05/18] fix: the type of an ffi-ed function is function instead
 of an abort

---
 mjs.c          | 1 +
 src/mjs_core.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 2c713f9..fa085dc 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7716,6 +7716,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
diff --git a/src/mjs_core.c b/src/mjs_core.c
index 2ba0765..dbf8c49 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -215,6 +215,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
-- 
2.43.0


From 7f5e596abacf38b28b9b56c924fc595cf9f87b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 06/18] fix: mjs_apply of a C function keeps the stacks
 balanced and reads the result from the live stack

---
 mjs.c          | 38 ++++++++++++++++++++------------------
 src/mjs_exec.c | 38 ++++++++++++++++++++------------------
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/mjs.c b/mjs.c
index fa085dc..242ac2a 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9093,7 +9093,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r, prev_this_val, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -9107,7 +9107,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -9123,28 +9122,31 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+    /* Restore frame just like OP_CALL does, and pop the returned value */
+    call_stack_restore_frame(mjs);
+    r = mjs_pop(mjs);
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
-    if (res != NULL) *res = r;
-  }
 
-  /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
-   */
-  if (mjs->error != MJS_OK) {
-    call_stack_restore_frame(mjs);
+    /*
+     * If there was an error, we need to restore frame and do the cleanup
+     * which is otherwise done by OP_RETURN
+     */
+    if (mjs->error != MJS_OK) {
+      call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+      // Pop cell at which the returned value should've been written
+      mjs_pop(mjs);
+    }
   }
+  if (res != NULL) *res = r;
   mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 1a45b77..c46c50b 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1121,7 +1121,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r, prev_this_val, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1135,7 +1135,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -1151,28 +1150,31 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+    /* Restore frame just like OP_CALL does, and pop the returned value */
+    call_stack_restore_frame(mjs);
+    r = mjs_pop(mjs);
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
-    if (res != NULL) *res = r;
-  }
 
-  /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
-   */
-  if (mjs->error != MJS_OK) {
-    call_stack_restore_frame(mjs);
+    /*
+     * If there was an error, we need to restore frame and do the cleanup
+     * which is otherwise done by OP_RETURN
+     */
+    if (mjs->error != MJS_OK) {
+      call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+      // Pop cell at which the returned value should've been written
+      mjs_pop(mjs);
+    }
   }
+  if (res != NULL) *res = r;
   mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
-- 
2.43.0


From e9ab7e963904351d4b2c17eea6b1706cc2601193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 07/18] fix: string subscripts beyond 2^32 do not wrap around

---
 mjs.c          | 4 ++--
 src/mjs_exec.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 242ac2a..0f597d8 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8409,7 +8409,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
   if (strcmp(name, "length") == 0) {
     size_t val_len;
@@ -8432,7 +8432,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index c46c50b..ffbdcb6 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -437,7 +437,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
   if (strcmp(name, "length") == 0) {
     size_t val_len;
@@ -460,7 +460,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
-- 
2.43.0


From f198e6e870fd02d733e8550508e4a7051f4ebfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:49 +0000
Subject: [PATCH 08/18] fix: JSON.stringify escapes a vertical tab the way JSON
 requires

---
 mjs.c          | 9 +++++----
 src/mjs_json.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index 0f597d8..4f8c22e 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10931,11 +10931,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
+   *
+   * (JSON has no escape for 0xb, so it takes the \uXXXX form.)
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn?fr";
   size_t i = 0;
 
   i++;
@@ -10945,12 +10946,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < ' ') {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
diff --git a/src/mjs_json.c b/src/mjs_json.c
index eeb2ea3..429c273 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -67,11 +67,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
+   *
+   * (JSON has no escape for 0xb, so it takes the \uXXXX form.)
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn?fr";
   size_t i = 0;
 
   i++;
@@ -81,12 +82,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < ' ') {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
-- 
2.43.0


From 019f73798f96d02f9811a022698118db9b1e102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:49 +0000
Subject: [PATCH 09/18] fix: JSON.parse does not read past the end of its input

---
 mjs.c          | 4 +++-
 src/mjs_json.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 4f8c22e..00a1640 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11208,6 +11208,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
           mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+          free(dst);
           break;
         }
         v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
@@ -11310,8 +11311,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    stmp[len] = '\0'; /* strtod() and frozen look one byte ahead */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 429c273..b60e966 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -344,6 +344,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
           mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+          free(dst);
           break;
         }
         v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
@@ -446,8 +447,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    stmp[len] = '\0'; /* strtod() and frozen look one byte ahead */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
-- 
2.43.0


From e839b7e5eecd198bafec323ff6af7a0842b9f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:38 +0000
Subject: [PATCH 10/18] fix: converting a negative number to int does not rely
 on undefined behaviour

---
 mjs.c               | 5 +++--
 src/mjs_primitive.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 00a1640..bdac406 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12924,9 +12924,10 @@ int mjs_get_int(struct mjs *mjs, mjs_val_t v) {
   (void) mjs;
   /*
    * NOTE(dfrank): without double cast, all numbers >= 0x80000000 are always
-   * converted to exactly 0x80000000.
+   * converted to exactly 0x80000000. Converting a negative double straight to
+   * an unsigned type is undefined, so go through int64_t.
    */
-  return (int) (unsigned int) get_double(v);
+  return (int) (unsigned int) (int64_t) get_double(v);
 }
 
 int32_t mjs_get_int32(struct mjs *mjs, mjs_val_t v) {
diff --git a/src/mjs_primitive.c b/src/mjs_primitive.c
index ae28188..1bbb1f3 100644
--- a/src/mjs_primitive.c
+++ b/src/mjs_primitive.c
@@ -59,9 +59,10 @@ int mjs_get_int(struct mjs *mjs, mjs_val_t v) {
   (void) mjs;
   /*
    * NOTE(dfrank): without double cast, all numbers >= 0x80000000 are always
-   * converted to exactly 0x80000000.
+   * converted to exactly 0x80000000. Converting a negative double straight to
+   * an unsigned type is undefined, so go through int64_t.
    */
-  return (int) (unsigned int) get_double(v);
+  return (int) (unsigned int) (int64_t) get_double(v);
 }
 
 int32_t mjs_get_int32(struct mjs *mjs, mjs_val_t v) {
-- 
2.43.0


From 0e6915c45d208144f44b80a32dbc545e304f8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:38 +0000
Subject: [PATCH 11/18] fix: an ffi-ed function is truthy like any other
 function

---
 mjs.c                | 4 +++-
 src/mjs_conversion.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index bdac406..30c7aac 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7426,6 +7426,7 @@ void mjs_init_builtin(struct mjs *mjs, mjs_val_t obj) {
 #endif
 
 /* Amalgamated: #include "mjs_conversion.h" */
+/* Amalgamated: #include "mjs_ffi.h" */
 /* Amalgamated: #include "mjs_object.h" */
 /* Amalgamated: #include "mjs_primitive.h" */
 /* Amalgamated: #include "mjs_string.h" */
@@ -7491,7 +7492,8 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) ||
+       (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
diff --git a/src/mjs_conversion.c b/src/mjs_conversion.c
index 2dec2dd..d1ad985 100644
--- a/src/mjs_conversion.c
+++ b/src/mjs_conversion.c
@@ -4,6 +4,7 @@
  */
 
 #include "mjs_conversion.h"
+#include "mjs_ffi.h"
 #include "mjs_object.h"
 #include "mjs_primitive.h"
 #include "mjs_string.h"
@@ -69,7 +70,8 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) ||
+       (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
-- 
2.43.0


From e50d941c9986fb6eba476bc895d4f04a6481de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:26 +0000
Subject: [PATCH 12/18] fix: reject NaN and out-of-int-range numbers when
 assigning through a pointer

---
 mjs.c          | 7 ++++---
 src/mjs_exec.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 30c7aac..4920438 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8307,18 +8307,19 @@ static void exec_expr(struct mjs *mjs, int op) {
          */
 
         int ikey = mjs_get_int(mjs, key);
-        int ival = mjs_get_int(mjs, val);
+        double dval = mjs_get_double(mjs, val);
 
         if (!mjs_is_number(key)) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "index must be a number");
           val = MJS_UNDEFINED;
-        } else if (!mjs_is_number(val) || ival < 0 || ival > 0xff) {
+        } else if (!mjs_is_number(val) || isnan(dval) || dval <= -1 ||
+                   dval >= 256) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR,
                              "only number 0 .. 255 can be assigned");
           val = MJS_UNDEFINED;
         } else {
           uint8_t *ptr = (uint8_t *) mjs_get_ptr(mjs, obj);
-          *(ptr + ikey) = (uint8_t) ival;
+          *(ptr + ikey) = (uint8_t) (int) dval;
         }
       } else {
         mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "unsupported object type");
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index ffbdcb6..31e74e6 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -333,18 +333,19 @@ static void exec_expr(struct mjs *mjs, int op) {
          */
 
         int ikey = mjs_get_int(mjs, key);
-        int ival = mjs_get_int(mjs, val);
+        double dval = mjs_get_double(mjs, val);
 
         if (!mjs_is_number(key)) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "index must be a number");
           val = MJS_UNDEFINED;
-        } else if (!mjs_is_number(val) || ival < 0 || ival > 0xff) {
+        } else if (!mjs_is_number(val) || isnan(dval) || dval <= -1 ||
+                   dval >= 256) {
           mjs_prepend_errorf(mjs, MJS_TYPE_ERROR,
                              "only number 0 .. 255 can be assigned");
           val = MJS_UNDEFINED;
         } else {
           uint8_t *ptr = (uint8_t *) mjs_get_ptr(mjs, obj);
-          *(ptr + ikey) = (uint8_t) ival;
+          *(ptr + ikey) = (uint8_t) (int) dval;
         }
       } else {
         mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "unsupported object type");
-- 
2.43.0


From 0ba04f5830f30e8e9d7123cfcbb7329aaac74580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 13/18] fix: don't read past the end of a name that is not
 NUL-terminated when parsing an index

---
 mjs.c            | 12 +++++++++---
 src/mjs_string.c | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 4920438..6e192af 100644
--- a/mjs.c
+++ b/mjs.c
@@ -13256,9 +13256,15 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-  char *e;
-  unsigned long res = strtoul(s, &e, 10);
-  *ok = (e == s + len) && len != 0;
+  /* `s` is not necessarily NUL-terminated, so it can't be parsed in place */
+  char buf[24], *e;
+  unsigned long res;
+  *ok = 0;
+  if (len == 0 || len >= sizeof(buf)) return 0;
+  memcpy(buf, s, len);
+  buf[len] = '\0';
+  res = strtoul(buf, &e, 10);
+  *ok = (e == buf + len);
   return res;
 }
 
diff --git a/src/mjs_string.c b/src/mjs_string.c
index 19c6f2b..4195802 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -228,9 +228,15 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-  char *e;
-  unsigned long res = strtoul(s, &e, 10);
-  *ok = (e == s + len) && len != 0;
+  /* `s` is not necessarily NUL-terminated, so it can't be parsed in place */
+  char buf[24], *e;
+  unsigned long res;
+  *ok = 0;
+  if (len == 0 || len >= sizeof(buf)) return 0;
+  memcpy(buf, s, len);
+  buf[len] = '\0';
+  res = strtoul(buf, &e, 10);
+  *ok = (e == buf + len);
   return res;
 }
 
-- 
2.43.0


From 740bf547ae703f6a750faca06e4e415857e63c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 14/18] fix: compare names of builtin properties in full length

---
 mjs.c          | 20 ++++++++++++--------
 src/mjs_exec.c | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/mjs.c b/mjs.c
index 6e192af..e071182 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8408,24 +8408,29 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+/* Names may contain NULs and are not necessarily NUL-terminated */
+static int name_is(const char *name, size_t name_len, const char *s) {
+  return name_len == strlen(s) && memcmp(name, s, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
   unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (name_is(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (name_is(name, name_len, "at") || name_is(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (name_is(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (name_is(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -8448,18 +8453,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (name_is(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (name_is(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (name_is(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 31e74e6..cfc7e6e 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -434,24 +434,29 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+/* Names may contain NULs and are not necessarily NUL-terminated */
+static int name_is(const char *name, size_t name_len, const char *s) {
+  return name_len == strlen(s) && memcmp(name, s, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
   unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (name_is(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (name_is(name, name_len, "at") || name_is(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (name_is(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (name_is(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -474,18 +479,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (name_is(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (name_is(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (name_is(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
-- 
2.43.0


From 1b053dacbc253f27734418f672e829c3409e0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:29 +0000
Subject: [PATCH 15/18] fix: mjs_disown with no owned values must not read
 before the buffer

---
 mjs.c          | 2 ++
 src/mjs_core.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mjs.c b/mjs.c
index e071182..dcd3387 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7792,6 +7792,8 @@ int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
   mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
                                    mjs->owned_values.len - sizeof(v));
 
+  if (mjs->owned_values.len == 0) return 0;
+
   for (; (char *) vp >= mjs->owned_values.buf; vp--) {
     if (*vp == v) {
       *vp = *(mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
diff --git a/src/mjs_core.c b/src/mjs_core.c
index dbf8c49..773762a 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -289,6 +289,8 @@ int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
   mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
                                    mjs->owned_values.len - sizeof(v));
 
+  if (mjs->owned_values.len == 0) return 0;
+
   for (; (char *) vp >= mjs->owned_values.buf; vp--) {
     if (*vp == v) {
       *vp = *(mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
-- 
2.43.0


From 4cad9894d9a856ad94ee80a8bece9140fe4d0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 16/18] fix: report the right line for code behind the last
 line map item

---
 mjs.c          | 2 +-
 src/mjs_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index dcd3387..3305c30 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14293,11 +14293,11 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       p += llen;
 
       if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
         break;
       }
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
diff --git a/src/mjs_util.c b/src/mjs_util.c
index b14a18d..966d7f7 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -404,11 +404,11 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       p += llen;
 
       if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
         break;
       }
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
-- 
2.43.0


From 4aa076b15bda0182e31ce172f5dfc86a345b1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:02 +0000
Subject: [PATCH 17/18] fix: move line map items along when a wider jump offset
 moves the code

---
 mjs.c           | 30 ++++++++++++++++++++++++++++++
 src/mjs_bcode.c | 30 ++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/mjs.c b/mjs.c
index 3305c30..f9b767d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7130,6 +7130,33 @@ static void add_lineno_map_item(struct pstate *pstate) {
   }
 }
 
+/*
+ * Code behind the given offset (relative to `start_bcode_idx`) has moved by
+ * `diff` bytes: adjust the offsets of its line map items
+ */
+static void shift_lineno_map(struct pstate *pstate, size_t after, int diff) {
+  struct mbuf *map = &pstate->offset_lineno_map;
+  struct mbuf old = *map;
+  uint8_t *p = (uint8_t *) old.buf, *pe = (uint8_t *) old.buf + old.len;
+  mbuf_init(map, old.size);
+  while (p < pe) {
+    uint64_t offset, line_no;
+    uint8_t item[20];
+    size_t llen;
+    cs_varint_decode(p, pe - p, &offset, &llen);
+    p += llen;
+    cs_varint_decode(p, pe - p, &line_no, &llen);
+    p += llen;
+    if (offset > after) {
+      offset += diff;
+    }
+    llen = cs_varint_encode(offset, item, sizeof(item));
+    llen += cs_varint_encode(line_no, item + llen, sizeof(item) - llen);
+    mbuf_append(map, item, llen);
+  }
+  mbuf_free(&old);
+}
+
 MJS_PRIVATE void emit_byte(struct pstate *pstate, uint8_t byte) {
   add_lineno_map_item(pstate);
   mbuf_insert(&pstate->mjs->bcode_gen, pstate->cur_idx, &byte, sizeof(byte));
@@ -7180,6 +7207,9 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
   if (p->cur_idx >= (int) offset) {
     p->cur_idx += diff;
   }
+  if (diff > 0) {
+    shift_lineno_map(p, offset - p->start_bcode_idx, diff);
+  }
   return diff;
 }
 
diff --git a/src/mjs_bcode.c b/src/mjs_bcode.c
index 835f6c6..7be89d8 100644
--- a/src/mjs_bcode.c
+++ b/src/mjs_bcode.c
@@ -35,6 +35,33 @@ static void add_lineno_map_item(struct pstate *pstate) {
   }
 }
 
+/*
+ * Code behind the given offset (relative to `start_bcode_idx`) has moved by
+ * `diff` bytes: adjust the offsets of its line map items
+ */
+static void shift_lineno_map(struct pstate *pstate, size_t after, int diff) {
+  struct mbuf *map = &pstate->offset_lineno_map;
+  struct mbuf old = *map;
+  uint8_t *p = (uint8_t *) old.buf, *pe = (uint8_t *) old.buf + old.len;
+  mbuf_init(map, old.size);
+  while (p < pe) {
+    uint64_t offset, line_no;
+    uint8_t item[20];
+    size_t llen;
+    cs_varint_decode(p, pe - p, &offset, &llen);
+    p += llen;
+    cs_varint_decode(p, pe - p, &line_no, &llen);
+    p += llen;
+    if (offset > after) {
+      offset += diff;
+    }
+    llen = cs_varint_encode(offset, item, sizeof(item));
+    llen += cs_varint_encode(line_no, item + llen, sizeof(item) - llen);
+    mbuf_append(map, item, llen);
+  }
+  mbuf_free(&old);
+}
+
 MJS_PRIVATE void emit_byte(struct pstate *pstate, uint8_t byte) {
   add_lineno_map_item(pstate);
   mbuf_insert(&pstate->mjs->bcode_gen, pstate->cur_idx, &byte, sizeof(byte));
@@ -85,6 +112,9 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
   if (p->cur_idx >= (int) offset) {
     p->cur_idx += diff;
   }
+  if (diff > 0) {
+    shift_lineno_map(p, offset - p->start_bcode_idx, diff);
+  }
   return diff;
 }
 
-- 
2.43.0


From 6e918c41fbec7d47e83e34a3c92abda2d5c08af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 18/18] fix: count newlines inside string literals

Code behind a string literal that spans lines was reported at a line too
early, because the tokeniser counted newlines only between tokens.
---
 mjs.c         | 1 +
 src/mjs_tok.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index f9b767d..f7a5ab2 100644
--- a/mjs.c
+++ b/mjs.c
@@ -13780,6 +13780,7 @@ static int getstr(struct pstate *p) {
         (p->pos[1] == quote || strchr("bfnrtv\\", p->pos[1]) != NULL)) {
       p->pos += 2;
     } else {
+      if (p->pos[0] == '\n') p->line_no++;
       p->pos++;
     }
   }
diff --git a/src/mjs_tok.c b/src/mjs_tok.c
index da85f44..e830d29 100644
--- a/src/mjs_tok.c
+++ b/src/mjs_tok.c
@@ -114,6 +114,7 @@ static int getstr(struct pstate *p) {
         (p->pos[1] == quote || strchr("bfnrtv\\", p->pos[1]) != NULL)) {
       p->pos += 2;
     } else {
+      if (p->pos[0] == '\n') p->line_no++;
       p->pos++;
     }
   }
-- 
2.43.0

