From a7a8655ec4549e921c08cf071ec1aadcfece4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 01/58] fix: numeric casts to 64 bit integers at the type
 limits and from NaN

---
 src/c/data.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 6f6b451..7029cd7 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -493,8 +493,20 @@ static bool iot_data_cast_val (const iot_data_union_t in, void * out, iot_data_t
     case IOT_DATA_FLOAT64: uval.f64 = in.f64; break;
     default: uval.ui64 = in.bl ? 1u : 0u; break;
   }
-  // Check value within max/min for target type
-  if ((out_type < IOT_DATA_FLOAT64) && (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type])) return false;
+  // Check value within max/min for target type. The limits of the 64 bit integer types are not exact as double so checked separately. NaN not an integer.
+  if (out_type == IOT_DATA_INT64)
+  {
+    if (dfloat ? !(uval.f64 >= -0x1p63 && uval.f64 < 0x1p63) : (usign && (uval.ui64 > (uint64_t) INT64_MAX))) return false;
+  }
+  else if (out_type == IOT_DATA_UINT64)
+  {
+    if (dfloat ? !(uval.f64 >= 0.0 && uval.f64 < 0x1p64) : (!usign && (uval.i64 < 0))) return false;
+  }
+  else if (out_type < IOT_DATA_FLOAT64)
+  {
+    if (VALUE () > max_vals[out_type] || VALUE () < min_vals[out_type]) return false;
+    if (IOT_DATA_IS_INT_TYPE (out_type) && dfloat && (uval.f64 != uval.f64)) return false;
+  }
 
   // Cast to target type
   switch (out_type)
-- 
2.43.0


From 4a81fcdbc85993e1580cff283d4ed3007f400311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 02/58] fix: array transform reads beyond the end of the array
 for small element types

---
 src/c/data.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 7029cd7..f0e22e1 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -748,8 +748,9 @@ iot_data_t * iot_data_array_transform (const iot_data_t * array, iot_data_type_t
     iot_data_array_iter (array, &iter);
     while (iot_data_array_iter_next (&iter))
     {
-      const iot_data_union_t * element = iot_data_array_iter_value (&iter);
-      if (iot_data_cast_val (*element, ptr, array->element_type, type))
+      iot_data_union_t element = { .ui64 = 0u };
+      memcpy (&element, iot_data_array_iter_value (&iter), iot_data_type_sizes[array->element_type]);
+      if (iot_data_cast_val (element, ptr, array->element_type, type))
       {
         ptr += esize;
         asize++;
-- 
2.43.0


From 7748a3c377d11407d818d71397181309e573db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 03/58] fix: undefined conversion when hashing negative or
 large floating point values

---
 src/c/data.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index f0e22e1..a0d7d13 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1426,11 +1426,17 @@ iot_data_t * iot_data_alloc_const_i8 (iot_data_static_t * data, int8_t val)
   return (iot_data_t*) data;
 }
 
+static inline uint32_t iot_data_float_hash (double val)
+{
+  // Conversion of negative or out of range value directly to unsigned is undefined
+  return (val >= -0x1p63 && val < 0x1p63) ? (uint32_t) (int64_t) val : 0u;
+}
+
 iot_data_t * iot_data_alloc_f32 (float val)
 {
   iot_data_value_t * data = iot_data_value_alloc (IOT_DATA_FLOAT32, false);
   data->value.f32 = val;
-  data->base.hash = (uint32_t) val;
+  data->base.hash = iot_data_float_hash (val);
   return (iot_data_t*) data;
 }
 
@@ -1438,7 +1444,7 @@ iot_data_t * iot_data_alloc_f64 (double val)
 {
   iot_data_value_t * data = iot_data_value_alloc (IOT_DATA_FLOAT64, false);
   data->value.f64 = val;
-  data->base.hash = (uint32_t) val;
+  data->base.hash = iot_data_float_hash (val);
   return (iot_data_t*) data;
 }
 
-- 
2.43.0


From dee31378427bd26ffa1064b1e259a1321c866d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 04/58] fix: comparison by value of negative signed integer
 with unsigned integer

---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index a0d7d13..bca8da0 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -550,9 +550,9 @@ static int iot_data_cmp (const iot_data_t * v1, const iot_data_t * v2, bool by_v
       if (IOT_DATA_IS_SIGNED_TYPE (v1->type))
       {
         if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.i64 == uv2.i64) ? 0 : ((uv1.i64 < uv2.i64) ? -1 : 1);
-        return (uv1.i64 == uv2.ui64) ? 0 : ((uv1.i64 < uv2.ui64) ? -1 : 1);
+        if (uv1.i64 < 0) return -1; // Negative always less than unsigned
       }
-      if (IOT_DATA_IS_SIGNED_TYPE (v2->type)) return (uv1.ui64 == uv2.i64) ? 0 : ((uv1.ui64 < uv2.i64) ? -1 : 1);
+      else if (IOT_DATA_IS_SIGNED_TYPE (v2->type) && (uv2.i64 < 0)) return 1;
       return (uv1.ui64 == uv2.ui64) ? 0 : ((uv1.ui64 < uv2.ui64) ? -1 : 1);
     }
     return (v1->type < v2->type) ? -1 : 1;
-- 
2.43.0


From 82cb4194b4f517d5048c32e1f3c6928e21007eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 05/58] fix: map hash not updated when a value is replaced in
 place

---
 src/c/data.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index bca8da0..ba7ee54 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1841,6 +1841,7 @@ bool iot_data_map_base64_to_array (const iot_data_t * map, const iot_data_t * ke
     {
       iot_data_free (node->value);
       node->value = array;
+      ((iot_data_t*) map)->rehash = true;
     }
   }
   return (array != NULL);
@@ -2377,7 +2378,11 @@ iot_data_t * iot_data_map_iter_replace_value (const iot_data_map_iter_t * iter,
 {
   assert (iter && iter->_map && value && (iter->_map->base.element_type == IOT_DATA_MULTI || iter->_map->base.element_type == value->type));
   iot_data_t * res = (iter->_node) ? iter->_node->value : NULL;
-  if (res) iter->_node->value = value;
+  if (res)
+  {
+    ((iot_data_t*) &iter->_map->base)->rehash = true;
+    iter->_node->value = value;
+  }
   return res;
 }
 
-- 
2.43.0


From 96519110664504d97fb173b9aed52f51a9d5fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 06/58] fix: vector resize to same size discards pending rehash

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index ba7ee54..e641a44 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2069,7 +2069,7 @@ void iot_data_vector_resize (iot_data_t * vector, uint32_t size)
     vec->values = realloc (vec->values, size * sizeof (iot_data_t*));
     memset (&vec->values[vec->size], 0, (size - vec->size) * sizeof (iot_data_t*));
   }
-  vector->rehash = vec->size != size;
+  if (vec->size != size) vector->rehash = true;
   vec->size = size;
 }
 
-- 
2.43.0


From 8c8acc34d6825a207a1525b2b5014ed1b5a0575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 07/58] fix: increment and decrement leave hash of previous
 value

---
 src/c/data.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index e641a44..65bcbd6 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1253,22 +1253,28 @@ iot_data_t * iot_data_alloc_from_string (iot_data_type_t type, const char * valu
   return NULL;
 }
 
+static inline uint32_t iot_data_float_hash (double val)
+{
+  // Conversion of negative or out of range value directly to unsigned is undefined
+  return (val >= -0x1p63 && val < 0x1p63) ? (uint32_t) (int64_t) val : 0u;
+}
+
 static void iot_data_inc_dec (iot_data_t * data, bool inc)
 {
   assert (data);
   iot_data_union_t * val = &((iot_data_value_t*) data)->value;
   switch (data->type)
   {
-    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; break;
-    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; break;
-    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; break;
-    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; break;
-    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; break;
-    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; break;
-    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; break;
-    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; break;
-    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; break;
-    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; break;
+    case IOT_DATA_INT8: inc ? val->i8++ : val->i8--; data->hash = (uint32_t) val->i8; break;
+    case IOT_DATA_UINT8: inc ? val->ui8++ : val->ui8--; data->hash = (uint32_t) val->ui8; break;
+    case IOT_DATA_INT16: inc ? val->i16++ : val->i16--; data->hash = (uint32_t) val->i16; break;
+    case IOT_DATA_UINT16: inc ? val->ui16++ : val->ui16--; data->hash = (uint32_t) val->ui16; break;
+    case IOT_DATA_INT32: inc ? val->i32++ : val->i32--; data->hash = (uint32_t) val->i32; break;
+    case IOT_DATA_UINT32: inc ? val->ui32++ : val->ui32--; data->hash = val->ui32; break;
+    case IOT_DATA_INT64: inc ? val->i64++ : val->i64--; data->hash = (uint32_t) val->i64; break;
+    case IOT_DATA_UINT64: inc ? val->ui64++ : val->ui64--; data->hash = (uint32_t) val->ui64; break;
+    case IOT_DATA_FLOAT32: inc ? val->f32++ : val->f32--; data->hash = iot_data_float_hash (val->f32); break;
+    case IOT_DATA_FLOAT64: inc ? val->f64++ : val->f64--; data->hash = iot_data_float_hash (val->f64); break;
     default: break;
   }
 }
@@ -1426,12 +1432,6 @@ iot_data_t * iot_data_alloc_const_i8 (iot_data_static_t * data, int8_t val)
   return (iot_data_t*) data;
 }
 
-static inline uint32_t iot_data_float_hash (double val)
-{
-  // Conversion of negative or out of range value directly to unsigned is undefined
-  return (val >= -0x1p63 && val < 0x1p63) ? (uint32_t) (int64_t) val : 0u;
-}
-
 iot_data_t * iot_data_alloc_f32 (float val)
 {
   iot_data_value_t * data = iot_data_value_alloc (IOT_DATA_FLOAT32, false);
-- 
2.43.0


From 4e3f456d0cd78bc855ac6e7cdaeee953f3f379a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 08/58] fix: hash of empty array depends on how array was
 created

---
 src/c/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 65bcbd6..3516ed6 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1557,6 +1557,7 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
     ret = array->data;
     array->data = NULL;
     array->length = 0u;
+    array->base.hash = 0u;
   }
   else
   {
@@ -1604,7 +1605,7 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   array->base.element_type = type;
   array->data = length ? data : NULL;
   array->length = length;
-  array->base.hash = data ? iot_hash_data (data, size) : 0;
+  array->base.hash = length ? iot_hash_data (data, size) : 0u;
   array->base.release = data ? (ownership != IOT_DATA_REF) : false;
   if (length && data && (ownership == IOT_DATA_COPY))
   {
-- 
2.43.0


From 1f920bd76d3111f679c927a76b7e5b171569ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 09/58] fix: binary take of shared array with multi byte
 elements overflows copy

---
 src/c/data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 3516ed6..8c0b50e 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1561,8 +1561,8 @@ extern void * iot_data_binary_take (iot_data_t * data, uint32_t * len)
   }
   else
   {
-    ret = malloc (array->length);
-    memcpy (ret, array->data, *len);
+    ret = malloc (*len);
+    if (*len) memcpy (ret, array->data, *len);
   }
   return ret;
 }
-- 
2.43.0


From d98ea41389a37a86b952d1cdee0de7882b3cdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 10/58] fix: leak of data when ownership of zero length array
 taken

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 8c0b50e..4a0b013 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1607,6 +1607,7 @@ extern iot_data_t * iot_data_alloc_array (void * data, uint32_t length, iot_data
   array->length = length;
   array->base.hash = length ? iot_hash_data (data, size) : 0u;
   array->base.release = data ? (ownership != IOT_DATA_REF) : false;
+  if ((length == 0) && (ownership == IOT_DATA_TAKE)) free (data); // Data owned but not retained
   if (length && data && (ownership == IOT_DATA_COPY))
   {
     array->data = malloc (size);
-- 
2.43.0


From 5b3519e011d1bcab7bf77f94cd2b475bce4a750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 11/58] fix: iterator has_next true on empty container and
 wrong after moving backwards

---
 src/c/data.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 4a0b013..14f5833 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -920,7 +920,7 @@ bool iot_data_list_iter_next (iot_data_list_iter_t * iter)
 bool iot_data_list_iter_has_next (const iot_data_list_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_element == NULL) ||  iter->_element->next);
+  return (iter->_element) ? (iter->_element->next != NULL) : (iter->_list->tail != NULL);
 }
 
 bool iot_data_list_iter_prev (iot_data_list_iter_t * iter)
@@ -2321,7 +2321,7 @@ bool iot_data_map_iter_next (iot_data_map_iter_t * iter)
 bool iot_data_map_iter_has_next (const iot_data_map_iter_t * iter)
 {
   assert (iter && iter->_map);
-  return (iter->_count < iter->_map->size);
+  return (iter->_node) ? (iot_node_next (iter->_node) != NULL) : (iter->_map->tree != NULL);
 }
 
 static inline iot_node_t * iot_node_end (iot_node_t * node)
@@ -2429,7 +2429,7 @@ bool iot_data_array_iter_next (iot_data_array_iter_t * iter)
 bool iot_data_array_iter_has_next (const iot_data_array_iter_t * iter)
 {
   assert (iter);
-  return ((iter->_index == iter->_array->length) || (iter->_index + 1 < iter->_array->length));
+  return (iter->_index < iter->_array->length) ? (iter->_index + 1 < iter->_array->length) : (iter->_array->length != 0);
 }
 
 bool iot_data_array_iter_prev (iot_data_array_iter_t * iter)
@@ -2467,7 +2467,7 @@ bool iot_data_vector_iter_next (iot_data_vector_iter_t * iter)
 
 bool iot_data_vector_iter_has_next (const iot_data_vector_iter_t * iter)
 {
-  return ((iter->_index == iter->_vector->size) || (iter->_index + 1 < iter->_vector->size));
+  return (iter->_index < iter->_vector->size) ? (iter->_index + 1 < iter->_vector->size) : (iter->_vector->size != 0);
 }
 
 bool iot_data_vector_iter_prev (iot_data_vector_iter_t * iter)
-- 
2.43.0


From c940c5895830b8209782103f00a4a25b597ebf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 12/58] fix: vector dimensions of irregular vectors overflow
 buffer or reported as regular

---
 src/c/data.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 14f5833..9a4f13d 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2135,24 +2135,23 @@ static uint32_t iot_data_vector_depth (const iot_data_t * vector)
   return depth + 1u;
 }
 
-static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t * total)
+static bool iot_data_vector_dims (const iot_data_t * vector, uint32_t * dims, uint32_t depth, uint32_t * total)
 {
   uint32_t size = iot_data_vector_size (vector);
-  uint32_t vecs = iot_data_vector_element_count (vector, IOT_DATA_VECTOR, false);
-  if (*dims == 0)
+  if (*dims == UINT32_MAX) // Dimension not yet set
   {
     *dims = size;
-    *total = *total ? *total * size : size;
+    *total *= size;
   }
   bool ok = (*dims == size);
-  if (ok && (size == vecs)) // Only regard as multidimensional vector if all elements also vectors
+  if (ok && (depth > 1u)) // Only recurse to dimensions common to all elements
   {
     dims++;
     iot_data_vector_iter_t iter;
     iot_data_vector_iter (vector, &iter);
     while (ok && iot_data_vector_iter_next (&iter))
     {
-      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims, total);
+      ok = iot_data_vector_dims (iot_data_vector_iter_value (&iter), dims, depth - 1u, total);
     }
   }
   return ok;
@@ -2163,9 +2162,10 @@ iot_data_t * iot_data_vector_dimensions (const iot_data_t * vector, uint32_t * t
   assert (total && vector && (vector->type == IOT_DATA_VECTOR));
   iot_data_t * dimarray = NULL;
   uint32_t depth = iot_data_vector_depth (vector);
-  uint32_t * dims = calloc (depth, sizeof (uint32_t));
-  *total = 0u;
-  if (iot_data_vector_dims (vector, dims, total))
+  uint32_t * dims = malloc (depth * sizeof (uint32_t));
+  memset (dims, 0xff, depth * sizeof (uint32_t));
+  *total = 1u;
+  if (iot_data_vector_dims (vector, dims, depth, total))
   {
     dimarray = iot_data_alloc_array (dims, depth, IOT_DATA_UINT32, IOT_DATA_TAKE);
   }
-- 
2.43.0


From 6b184b6050adb10c8119c1d8486ca95cd6d3911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 13/58] fix: copy of static list returns the same list, so path
 functions modify their path

---
 src/c/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 9a4f13d..e22d74a 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2648,7 +2648,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
   iot_data_t * ret = NULL;
 
   if (data == NULL) return ret;
-  if (data->constant) return (iot_data_t*) data;
+  if (data->constant && (data->type != IOT_DATA_LIST)) return (iot_data_t*) data; // Static lists are mutable so are copied
 
   switch (data->type)
   {
-- 
2.43.0


From 404bede178fe8cde2732095bc8054a54cdc6368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 14/58] fix: copy of pointer data leaks reference to metadata

---
 src/c/data.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index e22d74a..0052be7 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2705,9 +2705,7 @@ iot_data_t * iot_data_copy (const iot_data_t * data)
     }
     case IOT_DATA_POINTER:
     {
-      ret = (iot_data_t*) data;
-      iot_data_add_ref (ret);
-      break;
+      return iot_data_add_ref (data);
     }
     default: // basic types
     {
-- 
2.43.0


From 2d33b3055deaf2932498f30fb5f857cdb5debd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 15/58] fix: get, add and update at a path fail when the path
 does not yet exist

---
 src/c/data.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/c/data.c b/src/c/data.c
index 0052be7..59fc21c 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2797,10 +2797,18 @@ extern const iot_data_t * iot_data_get_at (const iot_data_t * data, const iot_da
   const iot_data_t * result = data;
   if (iot_data_list_length (path) > 0)
   {
-    assert (data->type == IOT_DATA_MAP || data->type == IOT_DATA_VECTOR);
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
-    result = (data->type == IOT_DATA_MAP) ? iot_data_get_at (iot_data_map_get (data, index), p) : iot_data_get_at (iot_data_vector_get (data, iot_data_ui32 (index)), p);
+    result = NULL;
+    if (data->type == IOT_DATA_MAP)
+    {
+      result = iot_data_map_get (data, index);
+    }
+    else if ((data->type == IOT_DATA_VECTOR) && (index->type == IOT_DATA_UINT32) && (iot_data_ui32 (index) < iot_data_vector_size (data)))
+    {
+      result = iot_data_vector_get (data, iot_data_ui32 (index));
+    }
+    if (result) result = iot_data_get_at (result, p);
     iot_data_free (index);
     iot_data_free (p);
   }
@@ -2823,9 +2831,11 @@ extern iot_data_t * iot_data_add_at (const iot_data_t * data, const iot_data_t *
     iot_data_t * p = iot_data_copy (path);
     iot_data_t * index = iot_data_list_head_pop (p);
     result = iot_data_shallow_copy (data);
-    (data->type == IOT_DATA_MAP) ?
-      iot_data_map_add (result, iot_data_add_ref (index), iot_data_add_at (iot_data_map_get (data, index), p, val)) :
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_add_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, val));
+    if (iot_data_list_length (p) > 0)
+    {
+      val = (data->type == IOT_DATA_MAP) ? iot_data_add_at (iot_data_map_get (data, index), p, val) : iot_data_add_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, val);
+    }
+    (data->type == IOT_DATA_MAP) ? iot_data_map_add (result, iot_data_add_ref (index), val) : iot_data_vector_add (result, iot_data_ui32 (index), val);
     iot_data_free (index);
     iot_data_free (p);
   }
@@ -2895,7 +2905,8 @@ extern iot_data_t * iot_data_update_at (const iot_data_t * data, const iot_data_
     }
     else if (data->type == IOT_DATA_VECTOR)
     {
-      iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (iot_data_vector_get (data, iot_data_ui32 (index)), p, fn, arg));
+      const iot_data_t * val = iot_data_vector_get (data, iot_data_ui32 (index));
+      if (val) iot_data_vector_add (result, iot_data_ui32 (index), iot_data_update_at (val, p, fn, arg));
     }
     iot_data_free (index);
     iot_data_free (p);
-- 
2.43.0


From 9c3ef5bbd3c1a36582d7b8b6f8ce97cd72544722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 16/58] fix: compression of vector with empty elements

---
 src/c/data.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/data.c b/src/c/data.c
index 59fc21c..3d04805 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -1089,6 +1089,7 @@ bool iot_data_is_nan (const iot_data_t * data)
 
 static void iot_data_cache_add (iot_data_t * cache, iot_data_t ** data)
 {
+  if (*data == NULL) return; // Vector elements may be empty
   iot_data_t * cached = (iot_data_t*) iot_data_map_get (cache, *data);
   if (cached)
   {
-- 
2.43.0


From b46ed7960b3b86438c0e684509e18c8676335c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 17/58] fix: thread pool wait by several threads misses
 completion

---
 src/c/threadpool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/threadpool.c b/src/c/threadpool.c
index 42b590e..d4de189 100644
--- a/src/c/threadpool.c
+++ b/src/c/threadpool.c
@@ -116,7 +116,7 @@ static void * iot_threadpool_thread (void * arg)
       {
         pool->front = NULL;
         pool->rear = NULL;
-        pthread_cond_signal (&pool->work_cond); // Signal no jobs in queue
+        pthread_cond_broadcast (&pool->work_cond); // Signal no jobs in queue
       }
       if ((pool->jobs + 1) == pool->max_jobs)
       {
@@ -136,7 +136,7 @@ static void * iot_threadpool_thread (void * arg)
       iot_component_lock (comp);
       if (--pool->working == 0)
       {
-        pthread_cond_signal (&pool->work_cond); // Signal when no threads working
+        pthread_cond_broadcast (&pool->work_cond); // Signal when no threads working
       }
     }
     else
-- 
2.43.0


From 8f82fa0ad87880a159456afbe461c66dcd5a069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 18/58] fix: scheduler waits on stale time so schedules added
 meanwhile are missed

---
 src/c/scheduler.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 892e838..09679e8 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -154,15 +154,17 @@ static void * schedule_fn (void * data)
 static void * iot_scheduler_thread (void * arg)
 {
   iot_component_state_t state;
-  uint64_t next = iot_time_nsecs ();
+  uint64_t next;
   iot_scheduler_t * scheduler = (iot_scheduler_t*) arg;
   iot_data_t * queue = scheduler->queue;
 
-  nsToTimespec (next, &scheduler->schd_time);
   while (true)
   {
     state = iot_component_wait_and_lock (&scheduler->component, (uint32_t) IOT_COMPONENT_DELETED | (uint32_t) IOT_COMPONENT_RUNNING); // State wait
     if (state == IOT_COMPONENT_DELETED) break; // Exit thread on deletion
+    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
+    nsToTimespec (next, &scheduler->schd_time); // Calculate next execution time, as queue may have changed when not locked
     pthread_cond_timedwait (&scheduler->component.cond, &scheduler->component.mutex, &scheduler->schd_time); // Schedule wait
     state = scheduler->component.state;
     if (state != IOT_COMPONENT_RUNNING)
@@ -174,7 +176,7 @@ static void * iot_scheduler_thread (void * arg)
     }
 
     /* Get the schedule at the front of the queue */
-    iot_schedule_t * current = iot_schedule_queue_next (queue);
+    current = iot_schedule_queue_next (queue);
     if (current && current->start < iot_time_nsecs ()) // If a schedule and ready to run
     {
       bool valid_current = atomic_load (&current->scheduled);
@@ -250,10 +252,7 @@ static void * iot_scheduler_thread (void * arg)
       {
         iot_log_trace (scheduler->logger, "Current schedule deleted");
       }
-      current = iot_schedule_queue_next (queue);
     }
-    next = current ? current->start : (iot_time_nsecs () + IOT_SCHEDULER_DEFAULT_WAKE);
-    nsToTimespec (next, &scheduler->schd_time); /* Calculate next execution time */
     iot_component_unlock (&scheduler->component);
   }
   iot_component_unlock (&scheduler->component);
-- 
2.43.0


From d36c590a06ddf66c0b02bc295650ce646b54178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 19/58] fix: scheduler freed while its thread still uses it

---
 src/c/scheduler.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index 09679e8..fba49e4 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -49,6 +49,7 @@ struct iot_scheduler_t
   iot_data_t * idle;              /* Map of idle schedules, keyed by unique schedule id */
   iot_logger_t * logger;          /* Optional logger */
   struct timespec schd_time;      /* Time for next schedule */
+  bool active;                    /* Whether scheduler thread is active */
 };
 
 static inline void iot_schedule_add_ref (iot_schedule_t * schedule)
@@ -255,6 +256,8 @@ static void * iot_scheduler_thread (void * arg)
     }
     iot_component_unlock (&scheduler->component);
   }
+  scheduler->active = false;
+  pthread_cond_broadcast (&scheduler->component.cond); // Notify that thread no longer uses scheduler
   iot_component_unlock (&scheduler->component);
   return NULL;
 }
@@ -268,7 +271,9 @@ iot_scheduler_t * iot_scheduler_alloc (int priority, int affinity, iot_logger_t
   scheduler->queue = iot_data_alloc_map (IOT_DATA_UINT64);
   iot_logger_add_ref (logger);
   iot_log_info (logger, "iot_scheduler_alloc (priority: %d affinity: %d)", priority, affinity);
-  iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  iot_component_lock (&scheduler->component);
+  scheduler->active = iot_thread_create (NULL, iot_scheduler_thread, scheduler, priority, affinity, logger);
+  iot_component_unlock (&scheduler->component);
   return scheduler;
 }
 
@@ -439,9 +444,10 @@ void iot_scheduler_free (iot_scheduler_t * scheduler)
   {
     iot_log_trace (scheduler->logger, "iot_scheduler_free");
     iot_component_set_stopped (&scheduler->component); // Break schedule thread out of schedule wait
-    iot_wait_usecs (500u);
     iot_component_set_deleted (&scheduler->component); // Break schedule thread out of state wait
-    iot_wait_usecs (500u);
+    iot_component_lock (&scheduler->component);
+    while (scheduler->active) pthread_cond_wait (&scheduler->component.cond, &scheduler->component.mutex); // Wait for schedule thread to exit
+    iot_component_unlock (&scheduler->component);
     iot_scheduler_free_schedules (scheduler->queue);
     iot_scheduler_free_schedules (scheduler->idle);
     iot_logger_free (scheduler->logger);
-- 
2.43.0


From dd88d55a37cd66adebda649ca0863860edbeebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:52 +0000
Subject: [PATCH 20/58] fix: schedule removed by its run callback requeued when
 thread creation fails

---
 src/c/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index fba49e4..de58f45 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -222,7 +222,7 @@ static void * iot_scheduler_thread (void * arg)
           iot_log_trace (scheduler->logger, "Running schedule #%" PRIu64 " as thread", current->id);
           if (!iot_thread_create (NULL, schedule_fn, current, current->priority, IOT_THREAD_NO_AFFINITY, scheduler->logger))
           {
-            valid_current = atomic_load (&current->refs) > 1u;
+            valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
             iot_schedule_free (current);
           }
         }
-- 
2.43.0


From 43929200130d480324e1fc6db0b69bbc18489ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 21/58] fix: iot_file_read_binary returns nothing when a file
 cannot be read completely

---
 src/c/file.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index b1c4445..9032210 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -87,16 +87,22 @@ uint8_t * iot_file_read_binary (const char * path, size_t * len)
   FILE * fd = fopen (path, "r");
   if (fd)
   {
-    fseek (fd, 0, SEEK_END);
-    size = ftell (fd);
-    if (size) // Return NULL if file empty
+    long end = (fseek (fd, 0, SEEK_END) == 0) ? ftell (fd) : -1;
+    if (end > 0) // Return NULL if file empty or size not known
     {
       rewind (fd);
+      size = (size_t) end;
       ret = malloc (size + 1); // Allocate extra byte so can be NULL terminated if a string
-      size_t items = fread (ret, size, 1u, fd);
-      assert (items == 1);
-      (void) items;
-      ret[size] = 0; // String NULL terminator
+      if (ret && (fread (ret, size, 1u, fd) == 1u))
+      {
+        ret[size] = 0; // String NULL terminator
+      }
+      else // Not a file that can be read, or read failed
+      {
+        free (ret);
+        ret = NULL;
+        size = 0;
+      }
     }
     fclose (fd);
   }
-- 
2.43.0


From 66aa49b2800d15ecc917f32ec58fb805fe944e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 22/58] fix: iot_file_write_binary reports failed close and
 rename and removes its temporary file

---
 src/c/file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/file.c b/src/c/file.c
index 9032210..6326e67 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -122,8 +122,9 @@ bool iot_file_write_binary (const char * path, const uint8_t * binary, size_t le
   if (fd)
   {
     ok = (fwrite (binary, len, 1u, fd) == 1u);
-    fclose (fd);
-    if (ok) rename (tmp_path, path);
+    ok = (fclose (fd) == 0) && ok;
+    ok = ok && (rename (tmp_path, path) == 0);
+    if (! ok) remove (tmp_path);
   }
   return ok;
 }
-- 
2.43.0


From f22ad08ef2bf1c124cae70710e17fa9c59e97518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 23/58] fix: iot_file_list closes the directory when the
 regular expression is not valid

---
 src/c/file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/file.c b/src/c/file.c
index 6326e67..ea82fe1 100644
--- a/src/c/file.c
+++ b/src/c/file.c
@@ -147,7 +147,11 @@ iot_data_t * iot_file_list (const char * directory, const char * regex_str)
   DIR *d = opendir (directory);
   if (!d) goto DONE;
   regex_t regex;
-  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0) goto DONE;
+  if (regex_str && regcomp (&regex, regex_str, REG_NOSUB) != 0)
+  {
+    closedir (d);
+    goto DONE;
+  }
   list = iot_data_alloc_list ();
   const struct dirent *dir;
   while ((dir = readdir (d)))
-- 
2.43.0


From aa254dd734b64976b66b8f6d965aad9992aac618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 24/58] fix: iot_store_config_list handles a missing directory
 and lists only .json files

---
 src/c/store.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c/store.c b/src/c/store.c
index 87cf2ac..00fb4e2 100644
--- a/src/c/store.c
+++ b/src/c/store.c
@@ -96,14 +96,15 @@ bool iot_store_config_delete (const char * name, const char * uri)
 iot_data_t * iot_store_config_list (const char * directory)
 {
 #ifndef _AZURESPHERE_
-  static const char extension_regex[] = ".json$";
-  iot_data_t * file_list = iot_file_list (directory, extension_regex);
+  static const char extension[] = ".json";
+  iot_data_t * file_list = iot_file_list (directory, "\\.json$");
   iot_data_list_iter_t list_iter;
+  if (file_list == NULL) return NULL;
   iot_data_list_iter (file_list, &list_iter);
   while (iot_data_list_iter_next (&list_iter))
   {
     const char *full_name = iot_data_list_iter_string_value (&list_iter);
-    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension_regex) - 2));
+    const char *new_name = strndup (full_name, strlen (full_name) - (sizeof (extension) - 1));
     iot_data_t *old_iot = iot_data_list_iter_replace (&list_iter, iot_data_alloc_string (new_name, IOT_DATA_TAKE));
     iot_data_free (old_iot);
   }
-- 
2.43.0


From e81ddde62609456292d5f457621e23f7363b28d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 25/58] fix: JSON with object members that lack a key or value
 read beyond the parsed tokens

---
 src/c/data-json.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 2d2306d..8d8aad2 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -293,6 +293,13 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
   return ret;
 }
 
+static void iot_data_json_skip (iot_json_tok_t ** tokens)
+{
+  uint32_t children = (*tokens)->size;
+  (*tokens)++;
+  while (children--) iot_data_json_skip (tokens);
+}
+
 static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
 {
   uint32_t elements = (*tokens)->size;
@@ -303,11 +310,23 @@ static iot_data_t * iot_data_map_from_json (iot_json_tok_t ** tokens, const char
   (*tokens)++;
   while  (elements--)
   {
+    const iot_json_tok_t * tok = *tokens;
+    uint32_t values = tok->size;
+    if (tok->type == IOT_JSON_OBJECT || tok->type == IOT_JSON_ARRAY || values == 0u) // Ignore member that lacks a key or value
+    {
+      iot_data_json_skip (tokens);
+      continue;
+    }
     iot_data_t * key = iot_data_string_from_json (tokens, json, cache);
     if (ordered) iot_data_vector_add (ordering, i++, iot_data_add_ref (key));
     iot_data_map_add (map, key, iot_data_value_from_json (tokens, json, ordered, cache));
+    while (--values) iot_data_json_skip (tokens);
+  }
+  if (ordered)
+  {
+    iot_data_vector_resize (ordering, i);
+    iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   }
-  if (ordered) iot_data_set_metadata (map, ordering,IOT_DATA_STATIC (&iot_data_order));
   return map;
 }
 
@@ -328,13 +347,15 @@ static iot_data_t * iot_data_vector_from_json (iot_json_tok_t ** tokens, const c
 static iot_data_t * iot_data_value_from_json (iot_json_tok_t ** tokens, const char * json, bool ordered, iot_data_t * cache)
 {
   iot_data_t * data = NULL;
+  uint32_t extra = (*tokens)->size;
   switch ((*tokens)->type)
   {
     case IOT_JSON_PRIMITIVE: data = iot_data_primitive_from_json (tokens, json); break;
-    case IOT_JSON_OBJECT: data = iot_data_map_from_json (tokens, json, ordered, cache); break;
-    case IOT_JSON_ARRAY: data = iot_data_vector_from_json (tokens, json, ordered, cache); break;
+    case IOT_JSON_OBJECT: data = iot_data_map_from_json (tokens, json, ordered, cache); extra = 0u; break;
+    case IOT_JSON_ARRAY: data = iot_data_vector_from_json (tokens, json, ordered, cache); extra = 0u; break;
     default: data = iot_data_string_from_json (tokens, json, cache); break;
   }
+  while (extra--) iot_data_json_skip (tokens); // Value of something that is not a key
   return data;
 }
 
@@ -377,7 +398,7 @@ extern iot_data_t * iot_data_from_json_with_cache (const char * json, bool order
 
     iot_json_init (&parser);
     used = iot_json_parse (&parser, json, strlen (json), tptr, count);
-    if (used && (used <= count))
+    if ((used > 0) && ((uint32_t) used <= count))
     {
       iot_data_t * km = cache ? cache : iot_data_alloc_map (IOT_DATA_STRING);
       data = iot_data_value_from_json (&tptr, json, ordered, km);
-- 
2.43.0


From c0da643295fb818aeb72d6d9620ff5d144cfcbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 26/58] fix: unrecognised JSON primitive yielded no datum and
 aborted when the value of a member

---
 src/c/data-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 8d8aad2..b611ec8 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -290,7 +290,7 @@ static iot_data_t * iot_data_primitive_from_json (iot_json_tok_t ** tokens, cons
     }
   }
   free (str);
-  return ret;
+  return ret ? ret : iot_data_alloc_null ();
 }
 
 static void iot_data_json_skip (iot_json_tok_t ** tokens)
-- 
2.43.0


From 920748cc4cbb1638f17727ab706c856eaf5142e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 27/58] fix: JSON unicode escapes beyond ASCII wrote before the
 string outside a UTF-8 locale

---
 src/c/data-json.c | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index b611ec8..9df7e1c 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -8,7 +8,6 @@
 #include "iot/base64.h"
 #include "data-impl.h"
 #include <math.h>
-#include <uchar.h>
 
 #define IOT_JSON_BUFF_SIZE 512u
 #define IOT_VAL_BUFF_SIZE 31u
@@ -193,6 +192,36 @@ extern char * iot_data_to_json_with_buffer (const iot_data_t * data, char * buff
   return holder.str;
 }
 
+/* Encode character as UTF-8, independent of locale. Returns number of bytes written. */
+
+static size_t iot_data_utf8_encode (char * dst, uint32_t wc)
+{
+  if (wc < 0x80u)
+  {
+    dst[0] = (char) wc;
+    return 1u;
+  }
+  if (wc < 0x800u)
+  {
+    dst[0] = (char) (0xc0u | (wc >> 6u));
+    dst[1] = (char) (0x80u | (wc & 0x3fu));
+    return 2u;
+  }
+  if (wc >= 0xd800u && wc <= 0xdfffu) wc = 0xfffdu; // Unpaired surrogate, use replacement character
+  if (wc < 0x10000u)
+  {
+    dst[0] = (char) (0xe0u | (wc >> 12u));
+    dst[1] = (char) (0x80u | ((wc >> 6u) & 0x3fu));
+    dst[2] = (char) (0x80u | (wc & 0x3fu));
+    return 3u;
+  }
+  dst[0] = (char) (0xf0u | (wc >> 18u));
+  dst[1] = (char) (0x80u | ((wc >> 12u) & 0x3fu));
+  dst[2] = (char) (0x80u | ((wc >> 6u) & 0x3fu));
+  dst[3] = (char) (0x80u | (wc & 0x3fu));
+  return 4u;
+}
+
 static char * iot_data_string_from_json_token (const char * json, const iot_json_tok_t * token)
 {
   size_t len = (size_t) (token->end - token->start);
@@ -215,12 +244,17 @@ static char * iot_data_string_from_json_token (const char * json, const iot_json
           case 'u':
             if (src + 4 < json + token->start + len)
             {
-              char32_t wc;
-              mbstate_t ps = { 0 };
+              uint32_t wc = 0;
+              uint32_t low = 0;
               sscanf (++src, "%4" SCNx32, &wc);
-              size_t charsz = c32rtomb (dst, wc, &ps);
-              if (charsz > 0) dst += charsz;
               src += 3;
+              if ((wc & 0xfffffc00u) == 0xd800u && (src + 6 < json + token->start + len) && src[1] == '\\' && src[2] == 'u' &&
+                (sscanf (src + 3, "%4" SCNx32, &low) == 1) && (low & 0xfffffc00u) == 0xdc00u) // Surrogate pair
+              {
+                wc = 0x10000u + ((wc & 0x3ffu) << 10u) + (low & 0x3ffu);
+                src += 6;
+              }
+              dst += iot_data_utf8_encode (dst, wc);
             }
             break;
           default:
-- 
2.43.0


From ac6d6ece4e9731236729f1d318b542bc9f903698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 28/58] fix: writing a vector with empty elements as JSON
 dereferenced a null pointer

---
 src/c/data-json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 9df7e1c..6f0fd09 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -75,8 +75,9 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
 
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
 {
-  switch (data->type)
+  switch (iot_data_type (data))
   {
+    case IOT_DATA_INVALID: iot_data_strcat (holder, "null"); break; // Empty vector element
     case IOT_DATA_STRING:
       iot_data_add_quote (holder);
       iot_data_strcat (holder, iot_data_string (data));
-- 
2.43.0


From f65e400b5ea8cefe16b577e578920a409452bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 29/58] fix: JSON text of negative infinity lost its sign and
 of NaN was not valid

---
 src/c/data-json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 6f0fd09..a834fef 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -64,9 +64,9 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
     case IOT_DATA_INT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRId64, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: snprintf (buff, IOT_VAL_BUFF_SIZE, "%" PRIu64, *(const uint64_t *) ptr); break;
     case IOT_DATA_FLOAT32:
-      (fpclassify (*(const float*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
+      isnan (*(const float*) ptr) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "null") : isinf (*(const float*) ptr) ? snprintf (buff, IOT_VAL_BUFF_SIZE, signbit (*(const float*) ptr) ? "-1e400" : "1e400") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.8e", *(const float*) ptr); break;
     case IOT_DATA_FLOAT64:
-      (fpclassify (*(const double*) ptr) == FP_INFINITE) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
+      isnan (*(const double*) ptr) ? snprintf (buff, IOT_VAL_BUFF_SIZE, "null") : isinf (*(const double*) ptr) ? snprintf (buff, IOT_VAL_BUFF_SIZE, signbit (*(const double*) ptr) ? "-1e800" : "1e800") : snprintf (buff, IOT_VAL_BUFF_SIZE, "%.16e", *(const double*) ptr); break;
     case IOT_DATA_NULL: strncpy (buff, "null", IOT_VAL_BUFF_SIZE); break;
     default: strncpy (buff, (*(const bool*) ptr) ? "true" : "false", IOT_VAL_BUFF_SIZE); break;
   }
-- 
2.43.0


From dfd1d9992a28782104a00763b23028047e276870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 30/58] fix: numeric and boolean configuration getters do not
 use the default logger as documented

---
 src/c/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/config.c b/src/c/config.c
index 78df114..63d19e5 100644
--- a/src/c/config.c
+++ b/src/c/config.c
@@ -34,6 +34,7 @@ static bool iot_config_cast (const iot_data_t * map, const char * key, void * va
   bool ret = (data && iot_data_cast (data, type, val));
   if (! ret)
   {
+    if (logger == NULL) logger = iot_logger_default ();
     iot_log_error (logger, "Failed to resolve %s configuration value for: %s", iot_data_type_string (type), key);
   }
   return ret;
-- 
2.43.0


From 7346d97b3089384e3cf34a7b7eab31fe6e1f5889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 31/58] fix: overflow of UDP logger target buffer by a long
 host name

---
 src/c/logger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ff1ef0..0882d37 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -314,7 +314,9 @@ static iot_component_t * iot_logger_config (iot_container_t * cont, const iot_da
       const char * sep = strchr (to, ':');
       if (sep)
       {
-        strncpy (target, to, (size_t) (sep - to));
+        size_t len = (size_t) (sep - to);
+        if (len >= sizeof (target)) len = sizeof (target) - 1u;
+        memcpy (target, to, len);
         host = target;
         to = sep + 1;
       }
-- 
2.43.0


From 77fa048e1caaa4b8fd1a4830d8a4d3851f026c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 32/58] fix: UDP logger sends beyond its buffer when a message
 is truncated

---
 src/c/logger.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c/logger.c b/src/c/logger.c
index 0882d37..b2adeaf 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -195,6 +195,7 @@ static void iot_log_udp (iot_logger_t * logger, iot_loglevel_t level, uint64_t t
   if (impl->sock != -1)
   {
     size_t len = iot_logger_format_log (logimpl, level, timestamp, message);
+    if (len >= sizeof (logimpl->buff)) len = sizeof (logimpl->buff) - 1u; // Message truncated
     if (len > 0) sendto (impl->sock, logimpl->buff, len, 0, (struct sockaddr *) &impl->addr, sizeof (struct sockaddr_in));
   }
   iot_component_unlock (&logger->component);
-- 
2.43.0


From bf3bd812667677c4ee72a2ef517552ff516d0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 33/58] fix: stopping a logger that is not running loses its
 log level

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index b2adeaf..bdac19a 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -145,8 +145,8 @@ void iot_logger_stop (iot_logger_t * logger)
 {
   assert (logger);
   iot_logger_impl_t * impl = (iot_logger_impl_t*) logger;
+  if (logger->component.state == IOT_COMPONENT_RUNNING) impl->save = logger->level;
   iot_component_set_stopped (&logger->component);
-  impl->save = logger->level;
   logger->level = IOT_LOG_NONE;
 }
 
-- 
2.43.0


From adfc54afdc0bed7e51c48eaa3a26b439bb02580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 34/58] fix: setting the next logger of a logger to its current
 one uses freed memory

---
 src/c/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index bdac19a..5ca4b30 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -277,8 +277,8 @@ const char * iot_logger_level_to_string (iot_loglevel_t level)
 void iot_logger_set_next (iot_logger_t * logger, iot_logger_t * next)
 {
   iot_logger_impl_t * logimpl = (iot_logger_impl_t*) logger;
+  iot_logger_add_ref (next); // Before release of current as may be the same
   iot_logger_free ((iot_logger_t*) logimpl->next);
-  iot_logger_add_ref (next);
   logimpl->next = (iot_logger_impl_t*) next;
 }
 
-- 
2.43.0


From 28e84d77b5687561aa4fb0d07da680e4e9a2790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 35/58] fix: container initialisation aborts when the type of a
 component is not a string

---
 src/c/container.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 188c38e..2593bf2 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -270,6 +270,7 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
+      if (ctype == NULL) continue;
       config = (iot_config->load) (cname, iot_config->uri);
 
       if ((iot_component_factory_find (ctype) == NULL) && config)
@@ -284,7 +285,14 @@ bool iot_container_init (iot_container_t * cont)
     {
       cname = iot_data_map_iter_string_key (&iter);
       ctype = iot_data_map_iter_string_value (&iter);
-      iot_container_typed_load (cont, cname, ctype);
+      if (ctype)
+      {
+        iot_container_typed_load (cont, cname, ctype);
+      }
+      else
+      {
+        iot_log_error (cont->logger, "Invalid configuration, type of component %s is not a string", cname);
+      }
     }
     iot_data_free (map);
   }
-- 
2.43.0


From d159c9f8010d43ca471611273470a76593a4046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 36/58] fix: listing components by category dereferences the
 category of a factory without one

---
 src/c/container.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/container.c b/src/c/container.c
index 2593bf2..0ae16f9 100644
--- a/src/c/container.c
+++ b/src/c/container.c
@@ -460,7 +460,7 @@ iot_data_t * iot_container_list_components (iot_container_t * cont, const char *
   while (iot_data_list_iter_next (&iter))
   {
     const iot_component_t * comp = iot_data_list_iter_pointer_value (&iter);
-    if ((category == NULL) || (strcmp (category, comp->factory->category) == 0)) // Filter on category if set
+    if ((category == NULL) || (comp->factory->category && strcmp (category, comp->factory->category) == 0)) // Filter on category if set
     {
       iot_data_list_tail_push (list, iot_component_read ((iot_component_t*) comp));
     }
-- 
2.43.0


From a60b1a14032f111ae6fa85714fc54f0af9ea2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 37/58] fix: threads created with default attributes are not
 detached so leak when they end

---
 src/c/thread.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index f5d779b..8bc65dc 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -112,7 +112,10 @@ bool iot_thread_create (pthread_t * tid, iot_thread_fn_t func, void * arg, int p
   ret = pthread_create (tid, &attr, func, arg);
   if (ret != 0)
   {
-    ret = pthread_create (tid, NULL, func, arg);
+    pthread_attr_destroy (&attr);
+    pthread_attr_init (&attr); // Default attributes, but still detached as never joined
+    pthread_attr_setdetachstate (&attr, PTHREAD_CREATE_DETACHED);
+    ret = pthread_create (tid, &attr, func, arg);
     if (ret != 0) iot_log_error (logger, "pthread_create failed ret: %d", ret);
   }
   pthread_attr_destroy (&attr);
-- 
2.43.0


From 729fbdd6dd0bd13343a252da826e53099fa2a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 38/58] fix: JSON of maps with binary or composite keys was not
 valid

---
 src/c/data-json.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index a834fef..029a4f0 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -73,6 +73,24 @@ static void iot_data_dump_json_ptr (iot_string_holder_t * holder, const void * p
   holder->free -= strlen (buff);
 }
 
+static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data);
+
+static void iot_data_dump_json_key (iot_string_holder_t * holder, const iot_data_t * key)
+{
+  if (iot_data_type (key) == IOT_DATA_STRING || iot_data_type (key) == IOT_DATA_BINARY)
+  {
+    iot_data_dump_json (holder, key);
+  }
+  else // Key has to be a string, so quote and escape JSON of key
+  {
+    char * json = iot_data_to_json (key);
+    iot_data_add_quote (holder);
+    iot_data_strcat (holder, json);
+    iot_data_add_quote (holder);
+    free (json);
+  }
+}
+
 static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t * data)
 {
   switch (iot_data_type (data))
@@ -128,9 +146,7 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
         if (value)
         {
           if (! first) iot_data_strcat (holder, ",");
-          if (iot_data_type (key) != IOT_DATA_STRING) iot_data_add_quote (holder);
-          iot_data_dump_json (holder, key);
-          if (iot_data_type (key) != IOT_DATA_STRING) iot_data_add_quote (holder);
+          iot_data_dump_json_key (holder, key);
           iot_data_strcat (holder, ":");
           iot_data_dump_json (holder, value);
           first = false;
-- 
2.43.0


From 77f78370529895f9a1f1bdc922af6de6cfe2b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 39/58] fix: JSON of pointers was empty so containers of them
 were not valid JSON

---
 src/c/data-json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/data-json.c b/src/c/data-json.c
index 029a4f0..e601112 100644
--- a/src/c/data-json.c
+++ b/src/c/data-json.c
@@ -95,7 +95,8 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
 {
   switch (iot_data_type (data))
   {
-    case IOT_DATA_INVALID: iot_data_strcat (holder, "null"); break; // Empty vector element
+    case IOT_DATA_INVALID: // Empty vector element
+    case IOT_DATA_POINTER: iot_data_strcat (holder, "null"); break; // Pointer has no JSON representation
     case IOT_DATA_STRING:
       iot_data_add_quote (holder);
       iot_data_strcat (holder, iot_data_string (data));
@@ -181,7 +182,6 @@ static void iot_data_dump_json (iot_string_holder_t * holder, const iot_data_t *
       iot_data_strcat (holder, "]");
       break;
     }
-    case IOT_DATA_POINTER: break;
     default: iot_data_dump_json_ptr (holder, iot_data_address (data), data->type); break;
   }
 }
-- 
2.43.0


From 605b1229d948e9fd616af466e46f212f7cf534c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 40/58] fix: floating point values with small bit patterns were
 not valid CBOR

---
 src/c/data-cbor.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 609f549..e86a68d 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -78,6 +78,28 @@ static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
   iot_data_cbor_write_uint (holder, value < 0 ? -value : value, value < 0 ? 0x20 : 0);
 }
 
+static void iot_data_cbor_write_f32 (iot_cbor_holder_t * holder, const void * value)
+{
+  uint32_t v;
+  memcpy (&v, value, sizeof (v));
+  v = htobe32 (v);
+  iot_cbor_holder_check_size (holder, 5);
+  holder->data[holder->index++] = 0xfa;
+  memcpy (holder->data + holder->index, &v, sizeof (v));
+  holder->index += sizeof (v);
+}
+
+static void iot_data_cbor_write_f64 (iot_cbor_holder_t * holder, const void * value)
+{
+  uint64_t v;
+  memcpy (&v, value, sizeof (v));
+  v = htobe64 (v);
+  iot_cbor_holder_check_size (holder, 9);
+  holder->data[holder->index++] = 0xfb;
+  memcpy (holder->data + holder->index, &v, sizeof (v));
+  holder->index += sizeof (v);
+}
+
 static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr, const iot_data_type_t type)
 {
   switch (type)
@@ -90,8 +112,8 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
     case IOT_DATA_UINT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0); break;
     case IOT_DATA_INT64: iot_data_cbor_write_int (holder, *(const int64_t *) ptr); break;
     case IOT_DATA_UINT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0); break;
-    case IOT_DATA_FLOAT32: iot_data_cbor_write_uint (holder, *(const uint32_t *) ptr, 0xe0); break;
-    case IOT_DATA_FLOAT64: iot_data_cbor_write_uint (holder, *(const uint64_t *) ptr, 0xe0); break;
+    case IOT_DATA_FLOAT32: iot_data_cbor_write_f32 (holder, ptr); break;
+    case IOT_DATA_FLOAT64: iot_data_cbor_write_f64 (holder, ptr); break;
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1); holder->data[holder->index++] = 0xf6; break;
     default:
@@ -129,18 +151,14 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       break;
     case IOT_DATA_FLOAT32:
     {
-      uint32_t v;
       float f = iot_data_f32 (data);
-      memcpy (&v, &f, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f32 (holder, &f);
       break;
     }
     case IOT_DATA_FLOAT64:
     {
-      uint64_t v;
       double d = iot_data_f64 (data);
-      memcpy (&v, &d, sizeof (v));
-      iot_data_cbor_write_uint (holder, v, 0xe0);
+      iot_data_cbor_write_f64 (holder, &d);
       break;
     }
     case IOT_DATA_BOOL:
-- 
2.43.0


From ac2d02359542ca1a2ca9f53acd605bfeab419fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 41/58] fix: CBOR of vectors with empty elements dereferenced a
 null pointer and of pointers was missing

---
 src/c/data-cbor.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index e86a68d..713bf16 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -123,7 +123,7 @@ static void iot_data_dump_cbor_ptr (iot_cbor_holder_t * holder, const void * ptr
 
 static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * data)
 {
-  switch (data->type)
+  switch (iot_data_type (data))
   {
     case IOT_DATA_UINT8:
       iot_data_cbor_write_uint (holder, iot_data_ui8 (data), 0);
@@ -165,8 +165,6 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_cbor_holder_check_size (holder, 1);
       holder->data[holder->index++] = iot_data_bool (data) ? 0xf5 : 0xf4;
       break;
-    case IOT_DATA_POINTER:
-      break;
     case IOT_DATA_STRING:
     {
       const char *str = iot_data_string (data);
@@ -175,6 +173,8 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       iot_data_cbor_write_bytes (holder, str, len);
       break;
     }
+    case IOT_DATA_INVALID: // Empty vector element
+    case IOT_DATA_POINTER: // Pointer has no CBOR representation
     case IOT_DATA_NULL:
       iot_cbor_holder_check_size (holder, 1);
       holder->data[holder->index++] = 0xf6;
@@ -240,9 +240,7 @@ static void iot_data_dump_cbor (iot_cbor_holder_t * holder, const iot_data_t * d
       break;
     }
     case IOT_DATA_MULTI:
-    case IOT_DATA_INVALID:
       assert (data->type != IOT_DATA_MULTI);
-      assert (data->type != IOT_DATA_INVALID);
       break;
   }
 }
-- 
2.43.0


From 035a7986e5842584efcf13de9a4510847e3157ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 42/58] fix: overflow when negating the smallest integer for
 CBOR

---
 src/c/data-cbor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/data-cbor.c b/src/c/data-cbor.c
index 713bf16..acb2458 100644
--- a/src/c/data-cbor.c
+++ b/src/c/data-cbor.c
@@ -75,7 +75,7 @@ static void iot_data_cbor_write_uint (iot_cbor_holder_t * holder, uint64_t value
 
 static void iot_data_cbor_write_int (iot_cbor_holder_t * holder, int64_t value)
 {
-  iot_data_cbor_write_uint (holder, value < 0 ? -value : value, value < 0 ? 0x20 : 0);
+  iot_data_cbor_write_uint (holder, value < 0 ? 0u - (uint64_t) value : (uint64_t) value, value < 0 ? 0x20 : 0);
 }
 
 static void iot_data_cbor_write_f32 (iot_cbor_holder_t * holder, const void * value)
-- 
2.43.0


From d565595bb815078297311b2e0a461bb1f83e6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 43/58] fix: incomplete XML was returned as if complete

---
 src/c/data-xml.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 37b7a1e..293f971 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -100,6 +100,11 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
       default: break;
     }
   }
+  if (more) // Element not complete
+  {
+    iot_data_free (elem);
+    elem = NULL;
+  }
   return elem;
 }
 
-- 
2.43.0


From f139b5ae62e4a86886a9cf8fe9bfad2bfdd92d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 44/58] fix: malformed XML after the root element was accepted

---
 src/c/data-xml.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 293f971..477efd8 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -118,6 +118,16 @@ iot_data_t * iot_data_from_xml (const char * xml)
   holder.free = YXML_BUFF_SIZE - 1; // Allowing for string terminator
   yxml_init (x, x+1, YXML_PARSER_BUFF_SIZE);
   result = iot_data_map_from_xml (true, x, &holder, &xml);
+  bool valid = (result != NULL);
+  while (valid && *xml) // Check what follows root element
+  {
+    valid = yxml_parse (x, *xml++) >= YXML_OK;
+  }
+  if (!valid || yxml_eof (x) != YXML_OK)
+  {
+    iot_data_free (result);
+    result = NULL;
+  }
   free (x);
   free (holder.str);
   return result;
-- 
2.43.0


From 47b9aaba300603d57f20b3ae7e56225d8795b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 45/58] fix: XML elements were changed after being added so
 their hash was wrong and they compared unequal

---
 src/c/data-xml.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/c/data-xml.c b/src/c/data-xml.c
index 477efd8..cec4230 100644
--- a/src/c/data-xml.c
+++ b/src/c/data-xml.c
@@ -21,7 +21,6 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
   holder->str[0] = '\0';
   holder->free = holder->size - 1;
   iot_data_string_map_add (elem, "name", iot_data_alloc_string (elem_name, IOT_DATA_COPY));
-  iot_data_string_map_add (elem, "attributes", attrs);
   while (more && **str)
   {
     switch (yxml_parse (x, *(*str)++))
@@ -43,7 +42,6 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
             if (!children)
             {
               children = iot_data_alloc_vector (1u);
-              iot_data_string_map_add (elem, "children", children);
             }
             else
             {
@@ -63,6 +61,14 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
       }
       case YXML_ELEMEND:
       {
+        // Attributes and children added when complete, as hash of element is calculated when they are added
+        iot_data_string_map_add (elem, "attributes", attrs);
+        attrs = NULL;
+        if (children)
+        {
+          iot_data_string_map_add (elem, "children", children);
+          children = NULL;
+        }
         if (holder->str[0] != '\0')
         {
           iot_data_string_map_add (elem, "content", iot_data_alloc_string (holder->str, IOT_DATA_COPY));
@@ -105,6 +111,8 @@ static iot_data_t * iot_data_map_from_xml (bool root, yxml_t * x, iot_string_hol
     iot_data_free (elem);
     elem = NULL;
   }
+  iot_data_free (attrs); // If element not complete
+  iot_data_free (children);
   return elem;
 }
 
-- 
2.43.0


From f6eb4ff7899107e02293cbbdc5c815df30d78a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 46/58] fix: XML with white space in the end tag of the root
 element was taken as complete before its end

---
 src/c/yxml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 7007a5f..a04f1c8 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -641,8 +641,9 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 		if(yxml_isName(ch))
 			return yxml_elemclose(x, ch);
 		if(yxml_isSP(ch)) {
+			yxml_ret_t ret = yxml_elemcloseend(x);
 			x->state = YXMLS_etag2;
-			return yxml_elemcloseend(x);
+			return ret;
 		}
 		if(ch == (unsigned char)'>') {
 			x->state = YXMLS_misc2;
@@ -653,7 +654,7 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 		if(yxml_isSP(ch))
 			return YXML_OK;
 		if(ch == (unsigned char)'>') {
-			x->state = YXMLS_misc2;
+			x->state = x->stacklen ? YXMLS_misc2 : YXMLS_misc3;
 			return YXML_OK;
 		}
 		break;
-- 
2.43.0


From c6cd8255d35cd1c918d795613a7c6fbb513cc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 47/58] fix: XML character references to U+E000 to U+E7FD were
 refused and to surrogates accepted

---
 src/c/yxml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index a04f1c8..1ac9c47 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -316,7 +316,7 @@ static yxml_ret_t yxml_refend(yxml_t *x, yxml_ret_t ret) {
 	}
 
 	/* Codepoints not allowed in the XML 1.1 definition of a Char */
-	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xDFFF) < 0x7FF)
+	if(!ch || ch > 0x10FFFF || ch == 0xFFFE || ch == 0xFFFF || (ch-0xD800) < 0x800)
 		return YXML_EREF;
 	yxml_setutf8(x->data, ch);
 	return ret;
-- 
2.43.0


From 61abda757f325ed957a4da020d2a1b24f3de0daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 48/58] fix: YAML aliases were dropped so what followed was
 given to the wrong key

---
 src/c/data-yaml.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index b6d4c4d..2730e2c 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -10,6 +10,11 @@
 
 static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **exception);
 
+static void iot_data_alias_from_yaml (const yaml_event_t *event, iot_data_t **exception)
+{
+  *exception = iot_data_alloc_string_fmt ("Unsupported alias %s at line %zu", (const char *)event->data.alias.anchor, event->start_mark.line);
+}
+
 static iot_data_t * iot_data_string_from_yaml (const yaml_event_t *event)
 {
   return iot_data_alloc_string ((const char *)event->data.scalar.value, IOT_DATA_COPY);
@@ -98,6 +103,9 @@ static iot_data_t * iot_data_vector_from_yaml (yaml_parser_t *parser, iot_data_t
       case YAML_SEQUENCE_END_EVENT:
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        iot_data_alias_from_yaml (&event, exception);
+        break;
       default:
         break;
     }
@@ -154,6 +162,9 @@ static iot_data_t * iot_data_map_from_yaml (yaml_parser_t *parser, iot_data_t **
       case YAML_MAPPING_END_EVENT:
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        iot_data_alias_from_yaml (&event, exception);
+        break;
       default:
         break;
     }
@@ -216,6 +227,10 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
         result = iot_data_vector_from_yaml (&parser, exception);
         done = true;
         break;
+      case YAML_ALIAS_EVENT:
+        iot_data_alias_from_yaml (&event, exception);
+        done = true;
+        break;
       case YAML_STREAM_END_EVENT:
         done = true;
         break;
-- 
2.43.0


From 19b9872dbaf44677cec163e76e41c4df9e67bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 49/58] fix: YAML integers beyond 64 bits were replaced by the
 nearest limit

---
 src/c/data-yaml.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index 2730e2c..334e8b1 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -5,6 +5,7 @@
 //
 #include "iot/data.h"
 #include "data-impl.h"
+#include <errno.h>
 #include <math.h>
 #include <yaml.h>
 
@@ -41,20 +42,21 @@ static iot_data_t * iot_data_value_from_yaml (const yaml_event_t *event)
     else if (*val)
     {
       char *e;
+      errno = 0; // Integers that are out of range are floating point values
       if (*val == '-')
       {
         long long ll = strtoll (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
           ret = iot_data_alloc_i64 (ll);
         }
       }
-      if (ret == NULL)
+      else
       {
         unsigned long long ull = strtoull (val, &e, 0);
-        if (*e == '\0')
+        if (*e == '\0' && errno == 0)
         {
-          ret = ull < INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
+          ret = ull <= INT64_MAX ? iot_data_alloc_i64 (ull) : iot_data_alloc_ui64 (ull);
         }
       }
       if (ret == NULL)
-- 
2.43.0


From 0130d6bd241269019047c6c3b6b946ed31fbe207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 50/58] fix: malformed YAML after the first value was accepted

---
 src/c/data-yaml.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/c/data-yaml.c b/src/c/data-yaml.c
index 334e8b1..74927b8 100644
--- a/src/c/data-yaml.c
+++ b/src/c/data-yaml.c
@@ -242,6 +242,22 @@ iot_data_t * iot_data_from_yaml (const char * yaml, iot_data_t **exception)
     yaml_event_delete (&event);
   } while (!done);
 
+  done = (result == NULL);
+  while (!done) // Check what follows
+  {
+    if (yaml_parser_parse (&parser, &event))
+    {
+      done = (event.type == YAML_STREAM_END_EVENT);
+      yaml_event_delete (&event);
+    }
+    else
+    {
+      *exception = iot_data_alloc_string_fmt ("%s at line %zu", parser.problem, parser.problem_mark.line);
+      iot_data_free (result);
+      result = NULL;
+      done = true;
+    }
+  }
   yaml_parser_delete (&parser);
   return result;
 }
-- 
2.43.0


From 9a94578eb68c862b58ab239d60e3ab9b67983b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 51/58] fix: copy the component name into data read from a
 component

---
 src/c/component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/component.c b/src/c/component.c
index 01cad95..848e70b 100644
--- a/src/c/component.c
+++ b/src/c/component.c
@@ -161,7 +161,7 @@ extern iot_data_t * iot_component_read (iot_component_t * component)
   assert (component);
   iot_data_t * data = iot_data_alloc_map (IOT_DATA_STRING);
   pthread_mutex_lock (&component->mutex);
-  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_REF));
+  iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.name), iot_data_alloc_string (component->name, IOT_DATA_COPY));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.type), iot_data_alloc_string (component->factory->type, IOT_DATA_REF));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.state), iot_data_alloc_string (iot_component_state_name (component->state), IOT_DATA_REF));
   iot_data_map_add (data, IOT_DATA_STATIC (&iot_data_consts.config), iot_data_add_ref (component->config));
-- 
2.43.0


From aab4d6384cbd21cf7d1da50dc222eca63dfd53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 52/58] fix: initialise the default logger once when first used
 by several threads

---
 src/c/logger.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/c/logger.c b/src/c/logger.c
index 5ca4b30..86e0276 100644
--- a/src/c/logger.c
+++ b/src/c/logger.c
@@ -53,18 +53,19 @@ static iot_logger_impl_t iot_logger_dfl;
 
 static void iot_log_console (iot_logger_t * logger, iot_loglevel_t level, uint64_t timestamp, const char * message, const void *ctx);
 
+static void iot_logger_default_init (void)
+{
+  memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
+  iot_component_init (&iot_logger_dfl.base.component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
+  iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
+  iot_logger_dfl.impl = iot_log_console;
+}
+
 iot_logger_t * iot_logger_default (void)
 {
-  static iot_logger_t * logger = NULL;
-  if (logger == NULL)
-  {
-    logger = &iot_logger_dfl.base;
-    memset (&iot_logger_dfl, 0, sizeof (iot_logger_dfl));
-    iot_component_init (&logger->component, IOT_LOGGER_FACTORY, (iot_component_start_fn_t) iot_logger_start, (iot_component_stop_fn_t) iot_logger_stop);
-    iot_logger_dfl.base.level = iot_logger_dfl.save = IOT_LOGLEVEL_DEFAULT;
-    iot_logger_dfl.impl = iot_log_console;
-  }
-  return logger;
+  static pthread_once_t once = PTHREAD_ONCE_INIT;
+  pthread_once (&once, iot_logger_default_init); // As may first be used by several threads
+  return &iot_logger_dfl.base;
 }
 
 void iot_log__va_log (iot_logger_t * l, iot_loglevel_t level, const char* fmt, va_list args)
-- 
2.43.0


From 033fb99063a89b7a919905499dd4598c7b12b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 53/58] fix: priority limits were published before both were
 set when first used by several threads

---
 src/c/thread.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/c/thread.c b/src/c/thread.c
index 8bc65dc..407976c 100644
--- a/src/c/thread.c
+++ b/src/c/thread.c
@@ -35,13 +35,8 @@ static void * zephyr_func_wrapper (void * data)
 
 bool iot_thread_priority_valid (int priority)
 {
-  static int max_priority = -2;
-  static int min_priority = -2;
-  if (max_priority == -2)
-  {
-    max_priority = sched_get_priority_max (SCHED_FIFO);
-    min_priority = sched_get_priority_min (SCHED_FIFO);
-  }
+  const int max_priority = sched_get_priority_max (SCHED_FIFO);
+  const int min_priority = sched_get_priority_min (SCHED_FIFO);
   return (priority >= min_priority && priority <= max_priority);
 }
 
-- 
2.43.0


From 3981541c789e6f555da2f99bd25eaf135295e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 54/58] fix: hash of data shared by threads was read while
 being calculated

---
 src/c/data-impl.h |  4 ++--
 src/c/data.c      | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/c/data-impl.h b/src/c/data-impl.h
index c4536da..c0a537b 100644
--- a/src/c/data-impl.h
+++ b/src/c/data-impl.h
@@ -24,16 +24,16 @@ struct iot_data_t
 {
   iot_data_base_t base;
   _Atomic uint32_t refs;
-  uint32_t hash;
+  _Atomic uint32_t hash;
   iot_data_type_t type;
   iot_data_type_t element_type;
   iot_data_type_t key_type;
+  _Atomic bool rehash;
   bool release : 1;
   bool release_block : 1;
   bool heap : 1;
   bool constant : 1;
   bool composed : 1;
-  bool rehash : 1;
   bool tag1 : 1;
   bool tag2 : 1;
 };
diff --git a/src/c/data.c b/src/c/data.c
index 3d04805..2c0e3c2 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -287,12 +287,11 @@ extern void iot_data_block_free (void  * ptr)
 #endif
 }
 
-static inline void iot_data_map_hash (iot_data_t * map, const iot_data_t * key, const iot_data_t * value)
+static inline uint32_t iot_data_map_hash (const iot_data_t * key, const iot_data_t * value)
 {
   uint32_t key_hash = iot_data_hash (key);
   uint32_t val_hash = iot_data_hash (value);
-  map->hash ^= key_hash;
-  if (val_hash != key_hash) map->hash ^= val_hash; // Only apply value hash if different from key hash or hashes cancel out
+  return (val_hash != key_hash) ? (key_hash ^ val_hash) : key_hash; // Only apply value hash if different from key hash or hashes cancel out
 }
 
 uint32_t iot_data_hash (const iot_data_t * data)
@@ -300,15 +299,14 @@ uint32_t iot_data_hash (const iot_data_t * data)
   iot_data_t * da = (iot_data_t*) data;
   if (da && da->rehash)
   {
-    da->hash = 0;
-    da->rehash = false;
+    uint32_t hash = 0; // Only set in data when complete, as may be read by other threads
     if (da->type == IOT_DATA_VECTOR)
     {
       iot_data_vector_iter_t iter;
       iot_data_vector_iter (da, &iter);
       while (iot_data_vector_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_vector_iter_value (&iter));
       }
     }
     else if (da->type == IOT_DATA_LIST)
@@ -317,7 +315,7 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_list_iter (da, &iter);
       while (iot_data_list_iter_next (&iter))
       {
-        da->hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
+        hash ^= iot_data_hash (iot_data_list_iter_value (&iter));
       }
     }
     else // IOT_DATA_MAP
@@ -326,9 +324,11 @@ uint32_t iot_data_hash (const iot_data_t * data)
       iot_data_map_iter (da, &iter);
       while (iot_data_map_iter_next (&iter))
       {
-        iot_data_map_hash (da, iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
+        hash ^= iot_data_map_hash (iot_data_map_iter_key (&iter), iot_data_map_iter_value (&iter));
       }
     }
+    da->hash = hash;
+    da->rehash = false;
   }
   return da ? da->hash : 0u;
 }
@@ -3233,7 +3233,7 @@ static bool iot_node_add (iot_data_map_t * map, iot_data_t * key, iot_data_t * v
   else
   {
     iot_node_insert (map, key, value);
-    iot_data_map_hash (&map->base, key, value);
+    map->base.hash ^= iot_data_map_hash (key, value);
   }
   return (node == NULL);
 }
-- 
2.43.0


From 606d3c904fd32bdd0326846098a47af02cde1e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 55/58] fix: string of an empty vector element read by an
 iterator failed an assertion

---
 src/c/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/data.c b/src/c/data.c
index 2c0e3c2..1a7c4db 100644
--- a/src/c/data.c
+++ b/src/c/data.c
@@ -2528,7 +2528,8 @@ iot_data_t * iot_data_vector_iter_replace_value (const iot_data_vector_iter_t *
 const char * iot_data_vector_iter_string (const iot_data_vector_iter_t * iter)
 {
   assert (iter);
-  return (iter->_index < iter->_vector->size) ? iot_data_string (iter->_vector->values[iter->_index]) : NULL;
+  const iot_data_t * data = iot_data_vector_iter_value (iter);
+  return data ? iot_data_string (data) : NULL;
 }
 
 const iot_data_t * iot_data_vector_find (const iot_data_t * vector, iot_data_cmp_fn cmp, const void * arg)
-- 
2.43.0


From 4ef40b1f93b0b20222ca32a94385fe5a871fbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 56/58] fix: synchronous schedules ran with the scheduler
 locked, so could not use it

---
 src/c/scheduler.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/scheduler.c b/src/c/scheduler.c
index de58f45..3f26b9c 100644
--- a/src/c/scheduler.c
+++ b/src/c/scheduler.c
@@ -195,7 +195,11 @@ static void * iot_scheduler_thread (void * arg)
         if (atomic_load (&current->sync)) // Run schedule directly
         {
           iot_log_trace (scheduler->logger, "Running sync schedule #%" PRIu64 "", current->id);
-          schedule_fn (current);
+          iot_component_unlock (&scheduler->component); // Not locked, as function may use scheduler
+          current->function (current->arg);
+          iot_component_lock (&scheduler->component);
+          valid_current = atomic_load (&current->refs) > 1u && atomic_load (&current->scheduled);
+          iot_schedule_free (current);
         }
         else if (current->threadpool) // Run schedule from threadpool
         {
-- 
2.43.0


From 239cb36412f8ec12a3c04bc23d19aa0bc5ef5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 57/58] fix: XML character references to the last code points
 were refused

---
 src/c/yxml.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c/yxml.h b/src/c/yxml.h
index 9992bc3..40460fd 100644
--- a/src/c/yxml.h
+++ b/src/c/yxml.h
@@ -92,8 +92,10 @@ typedef struct {
 	 * - "<![CDATA[ ]]x ]]>": The three characters "]]x"
 	 * - "&#N;" and "&#xN;", where dec(n) > 127. The referenced Unicode
 	 *   character is then encoded in multiple UTF-8 bytes.
+	 * Also holds a reference while it is read, so has room for the longest
+	 * ("#x10FFFF" or "#1114111").
 	 */
-	char data[8];
+	char data[9];
 
 	/* Name of the current attribute. Changed after YXML_ATTRSTART, valid up to
 	 * and including the next YXML_ATTREND. */
-- 
2.43.0


From 2b6809e53e3929e098c1ad6b950554ce93f5fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 58/58] fix: XML processing instruction that ends with ??> was
 not closed

---
 src/c/yxml.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/yxml.c b/src/c/yxml.c
index 1ac9c47..37c5ee9 100644
--- a/src/c/yxml.c
+++ b/src/c/yxml.c
@@ -847,6 +847,8 @@ yxml_ret_t yxml_parse(yxml_t *x, int _ch) {
 			x->state = x->nextstate;
 			return yxml_pivalend(x);
 		}
+		if(ch == (unsigned char)'?')
+			return yxml_datapi1(x, ch);
 		if(yxml_isChar(ch)) {
 			x->state = YXMLS_pi2;
 			return yxml_datapi2(x, ch);
-- 
2.43.0

