// C07: vectors and arrays: indexed storage, resizing, compaction, iteration, dimensions and conversions
#include "val.h"
#ifndef N
#define N 3
#endif
#define CAP 8
static bool is_val (const iot_data_t * d, const void * arg) { return d && iot_data_ui8 (d) == *(const uint8_t*) arg; }
#if MODE == 0
static int m[CAP]; static unsigned n;
static void audit (iot_data_t * v)
{
  CHECK (iot_data_vector_size (v) == n && iot_data_length (v) == n, "size");
  for (unsigned i = 0; i < n; i++) { const iot_data_t * e = iot_data_vector_get (v, i); CHECK ((e != NULL) == (m[i] >= 0) && (!e || iot_data_ui8 (e) == m[i]), "element"); }
  iot_data_vector_iter_t it; iot_data_vector_iter (v, &it);
  for (unsigned i = 0; i < n; i++)
  {
    CHECK (iot_data_vector_iter_has_next (&it) && iot_data_vector_iter_next (&it) && iot_data_vector_iter_index (&it) == i, "iteration in index order");
    CHECK (iot_data_vector_iter_value (&it) == iot_data_vector_get (v, i), "iterator value");
  }
  if (n) CHECK (!iot_data_vector_iter_has_next (&it), "no next at the last element");
  CHECK (!iot_data_vector_iter_next (&it), "iteration ends");
  CHECK (iot_data_vector_iter_has_next (&it) == (n > 0), "has_next of a fresh iterator");
  for (unsigned i = n; i-- > 0;) CHECK (iot_data_vector_iter_prev (&it) && iot_data_vector_iter_index (&it) == i && iot_data_vector_iter_has_next (&it) == (i + 1 < n), "reverse iteration");
  CHECK (!iot_data_vector_iter_prev (&it), "reverse iteration ends");
  CHECK (iot_data_vector_get_pointer (v, n) == NULL, "no pointer beyond the end");
}
#elif MODE == 1
#ifndef MAXN
#define MAXN 2
#endif
static val_t * v_dim (unsigned levels)
{
  val_t * v = v_new (IOT_DATA_VECTOR); v->cnt = (uint8_t) symx_choice ("count", MAXN + 1);
  for (unsigned i = 0; i < v->cnt; i++) { if (levels > 1 && symx_choice ("vector", 2)) v->el[i] = v_dim (levels - 1); else v->el[i] = v_new (symx_choice ("hole", 2) ? IOT_DATA_INVALID : IOT_DATA_UINT8); }
  return v;
}
// oracle for dimensions over the plain description
static unsigned depth_of (const val_t * v)
{
  bool all = v->cnt > 0; for (unsigned i = 0; i < v->cnt; i++) if (v->el[i]->type != IOT_DATA_VECTOR) all = false;
  if (!all) return 1;
  unsigned d = depth_of (v->el[0]);
  for (unsigned i = 1; i < v->cnt; i++) if (depth_of (v->el[i]) != d) return 1;
  return d + 1;
}
static bool uniform (const val_t * v, unsigned depth, unsigned at, int * dims)
{
  if (dims[at] < 0) dims[at] = v->cnt;
  if (dims[at] != v->cnt) return false;
  if (depth > 1) for (unsigned i = 0; i < v->cnt; i++) if (!uniform (v->el[i], depth - 1, at + 1, dims)) return false;
  return true;
}
#elif MODE == 2
static num_t flat[16]; static iot_data_type_t ft[16]; static unsigned fn;
static void flatten (const val_t * v, bool rec)
{
  for (unsigned i = 0; i < v->cnt; i++)
  {
    val_t * e = v->el[i];
    if (e->type == IOT_DATA_VECTOR) { if (rec) flatten (e, true); }
    else if (e->type <= IOT_DATA_BOOL) { ft[fn] = e->type; flat[fn++] = e->n; }
  }
}
static unsigned count (const val_t * v, iot_data_type_t t, bool rec)
{
  unsigned c = 0;
  for (unsigned i = 0; i < v->cnt; i++) { val_t * e = v->el[i]; if (e->type == IOT_DATA_INVALID) continue; if (rec && e->type == IOT_DATA_VECTOR) c += count (e, t, rec); else if (e->type == t || t == IOT_DATA_MULTI) c++; }
  return c;
}
#endif
int main (void)
{
  LIVE0;
#if MODE == 0
  n = (unsigned) symx_choice ("size", 4);
  iot_data_t * v = iot_data_alloc_vector (n);
  for (unsigned i = 0; i < CAP; i++) m[i] = -1;
  for (int i = 0; i < N; i++)
  {
    uint8_t x = IN_U8 ("v");
    switch (symx_choice ("op", 6))
    {
      case 0: if (n) { unsigned k = (unsigned) symx_choice ("at", n); iot_data_vector_add (v, k, iot_data_alloc_ui8 (x)); m[k] = x; } break;
      case 1: if (n) { unsigned k = (unsigned) symx_choice ("at", n); iot_data_vector_add (v, k, NULL); m[k] = -1; } break;
      case 2: { unsigned k = (unsigned) symx_choice ("new size", 6); iot_data_vector_resize (v, k); for (unsigned j = k; j < CAP; j++) m[j] = -1; n = k; break; }
      case 3: { unsigned o = 0; for (unsigned j = 0; j < n; j++) if (m[j] >= 0) m[o++] = m[j]; for (unsigned j = o; j < n; j++) m[j] = -1; CHECK (iot_data_vector_compact (v) == o, "compact returns the number of elements"); n = o; break; }
      case 4:
      {
        unsigned k = (unsigned) symx_choice ("at", n + 1); iot_data_vector_iter_t it; iot_data_vector_iter (v, &it);
        if (k < n) for (unsigned j = 0; j <= k; j++) iot_data_vector_iter_next (&it);
        iot_data_t * nv = iot_data_alloc_ui8 (x), * o = iot_data_vector_iter_replace_value (&it, nv);
        if (k == n || m[k] < 0) { CHECK (o == NULL, "nothing replaced"); if (k == n) iot_data_free (nv); else if (iot_data_vector_get (v, k) == nv) m[k] = x; else iot_data_free (nv); }
        else { CHECK (o && iot_data_ui8 (o) == m[k], "replace returns the old value"); iot_data_free (o); m[k] = x; }
        break;
      }
      default:
      {
        unsigned k = 0; while (k < n && m[k] != x) k++;
        const iot_data_t * f = iot_data_vector_find (v, is_val, &x);
        CHECK (k < n ? f == iot_data_vector_get (v, k) : f == NULL, "find returns the first match");
        break;
      }
    }
    CHECK (iot_data_vector_size (v) == n, "size after each operation");
  }
  audit (v);
  for (unsigned i = 0; i < n; i++) symx_log ((uint64_t) m[i]);
  iot_data_free (v);
#elif MODE == 1
  val_t * d = v_dim (NEST);
  iot_data_t * v = v_make (d);
  unsigned depth = depth_of (d); int dims[8]; for (int i = 0; i < 8; i++) dims[i] = -1;
  bool ok = uniform (d, depth, 0, dims);
  uint32_t total = 77; iot_data_t * r = iot_data_vector_dimensions (v, &total);
  CHECK ((r != NULL) == ok, "dimensions exist exactly for a regular vector");
  if (ok)
  {
    CHECK (iot_data_type (r) == IOT_DATA_ARRAY && iot_data_array_type (r) == IOT_DATA_UINT32 && iot_data_array_length (r) == depth, "one dimension per level");
    uint32_t t = 1; for (unsigned i = 0; i < depth; i++) { t *= (uint32_t) dims[i]; CHECK (((const uint32_t*) iot_data_address (r))[i] == (uint32_t) dims[i], "dimension"); }
    CHECK (total == t, "total is the product of the dimensions"); symx_cover ("regular"); symx_log (total);
  }
  else { CHECK (total == 0, "total is zero for an irregular vector"); symx_cover ("irregular"); }
  iot_data_free (r); iot_data_free (v);
#elif MODE == 2  // conversion of vectors of mixed content
  val_t * d = v_gen (K_VEC, KINDS, 2);
  iot_data_t * v = v_make (d); bool rec = symx_choice ("recurse", 2);
  iot_data_type_t to = TO;
  flatten (d, rec);
  num_t out[16]; unsigned no = 0;
  for (unsigned i = 0; i < fn; i++) if (num_convert (ft[i], flat[i], to, &out[no])) no++;
  CHECK (iot_data_vector_element_count (v, IOT_DATA_UINT8, rec) == count (d, IOT_DATA_UINT8, rec) && iot_data_vector_element_count (v, IOT_DATA_MULTI, rec) == count (d, IOT_DATA_MULTI, rec), "element count");
  iot_data_t * a = iot_data_vector_to_array (v, to, rec);
  CHECK (a && iot_data_array_type (a) == to && iot_data_array_length (a) == no, "array of exactly the convertible elements");
  for (unsigned i = 0; i < no; i++) { num_t x; memcpy (x.raw, (const uint8_t*) iot_data_address (a) + i * num_size[to], num_size[to]); CHECK (num_same (to, x, out[i]), "array element value, in order"); }
  iot_data_t * w = iot_data_vector_to_vector (v, to, rec);
  CHECK (iot_data_vector_size (w) == no && iot_data_vector_type (w) == to, "vector of exactly the convertible elements");
  for (unsigned i = 0; i < no; i++) { const iot_data_t * e = iot_data_vector_get (w, i); CHECK (e && iot_data_type (e) == to, "vector element type"); num_t x; iot_data_cast (e, to, &x); CHECK (num_same (to, x, out[i]), "vector element value, in order"); }
  if (no) symx_cover ("some"); symx_log (no);
  iot_data_free (a); iot_data_free (w); iot_data_free (v);
#else            // typed arrays: transform and iteration
  iot_data_type_t from = FROM; unsigned len = (unsigned) symx_choice ("len", 3);
  num_t x[3]; uint8_t * raw = malloc (24);
  for (unsigned i = 0; i < len; i++) { x[i] = num_in ("e", from); memcpy (raw + i * num_size[from], x[i].raw, num_size[from]); }
  iot_data_t * a = iot_data_alloc_array (len ? raw : NULL, len, from, len ? IOT_DATA_COPY : IOT_DATA_COPY);
  free (raw);
  CHECK (iot_data_array_length (a) == len && iot_data_array_size (a) == len * num_size[from] && iot_data_array_is_of_type (a, from), "length and size");
  iot_data_array_iter_t it; iot_data_array_iter (a, &it);
  for (unsigned i = 0; i < len; i++) { CHECK (iot_data_array_iter_has_next (&it) && iot_data_array_iter_next (&it) && iot_data_array_iter_index (&it) == i && memcmp (iot_data_array_iter_value (&it), x[i].raw, num_size[from]) == 0, "array iteration");
    CHECK (iot_data_array_get (a, i) == (uint8_t*) iot_data_address (a) + i * num_size[from] && iot_data_array_iter_value (&it) == iot_data_array_get (a, i), "element of an array"); }
  CHECK (!iot_data_array_iter_next (&it) && iot_data_array_iter_value (&it) == NULL, "array iteration ends");
  CHECK (iot_data_array_iter_has_next (&it) == (len > 0), "has_next of a fresh iterator");
  for (unsigned i = len; i-- > 0;) CHECK (iot_data_array_iter_prev (&it) && iot_data_array_iter_index (&it) == i, "reverse array iteration");
  CHECK (!iot_data_array_iter_prev (&it), "reverse array iteration ends");
  symx_cover ("some"); symx_log (len);
  iot_data_free (a);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
