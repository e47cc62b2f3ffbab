// Types, type codes, names, tags and accessors; generic iteration
#include "val.h"
#include <strings.h>
static const char * names[] = { "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64", "Bool", "Pointer", "String", "Null", "Binary", "Array", "Vector", "List", "Map", "Multi" };
static int some;
static bool cmp (const iot_data_t * d, const void * arg) { return d == arg; }
static bool tc_same (const iot_typecode_t * a, const iot_typecode_t * b)
{
  if (a->type != b->type) return false;
  if (a->type >= IOT_DATA_ARRAY && a->element_type != b->element_type) return false;
  return a->type != IOT_DATA_MAP || a->key_type == b->key_type;
}
static iot_typecode_t tc_in (void)
{
  iot_typecode_t t; t.type = (iot_data_type_t) symx_input ("type", 8); t.element_type = (iot_data_type_t) symx_input ("element", 8); t.key_type = (iot_data_type_t) symx_input ("key", 8);
  ASSUME (t.type <= IOT_DATA_MAP && t.element_type <= IOT_DATA_INVALID && t.key_type <= IOT_DATA_INVALID); return t;
}
static iot_data_t * make (unsigned k, iot_data_type_t * type, iot_data_type_t * el, iot_data_type_t * key, num_t * n)
{
  *type = (iot_data_type_t) k; *el = IOT_DATA_INVALID; *key = IOT_DATA_INVALID;
  if (k <= IOT_DATA_BOOL) { *n = num_in ("value", *type); return num_alloc (*type, *n); }
  iot_data_type_t e = (iot_data_type_t) (symx_choice ("typed", 2) ? IOT_DATA_STRING : IOT_DATA_MULTI);
  switch (k)
  {
    case IOT_DATA_POINTER: return iot_data_alloc_pointer (&some, NULL);
    case IOT_DATA_STRING: return STR ("text");
    case IOT_DATA_NULL: return iot_data_alloc_null ();
    case IOT_DATA_BINARY: *el = IOT_DATA_UINT8; return iot_data_alloc_binary ("ab", 2, IOT_DATA_COPY);
    case IOT_DATA_ARRAY: { static const uint64_t z[3]; *el = (iot_data_type_t) symx_choice ("element type", 11); return iot_data_alloc_array ((void*) z, 3, *el, IOT_DATA_REF); }
    case IOT_DATA_VECTOR: { *el = e; iot_data_t * v = e == IOT_DATA_MULTI && symx_choice ("plain", 2) ? iot_data_alloc_vector (2) : iot_data_alloc_typed_vector (2, e); return v; }
    case IOT_DATA_LIST: *el = e; return e == IOT_DATA_MULTI && symx_choice ("plain", 2) ? iot_data_alloc_list () : iot_data_alloc_typed_list (e);
    default: *el = e; *key = (iot_data_type_t) (symx_choice ("key type", 2) ? IOT_DATA_UINT8 : IOT_DATA_MULTI); return e == IOT_DATA_MULTI && symx_choice ("plain", 2) ? iot_data_alloc_map (*key) : iot_data_alloc_typed_map (*key, e);
  }
}
#if MODE == 2
static iot_data_t * seq[4]; static unsigned len;
// walk with the generic iterator: position -1 is before the first; after the last the iterator is at its start again
static void walk (const iot_data_t * c)
{
  iot_data_iter_t it; iot_data_iter (c, &it); int pos = -1;
  for (int s = 0; s < N; s++)
  {
    CHECK (iot_data_iter_has_next (&it) == (pos + 1 < (int) len), "another element exists exactly when there is one");
    bool back = symx_choice ("back", 2), r = back ? iot_data_iter_prev (&it) : iot_data_iter_next (&it);
    if (back) pos = pos < 0 ? (int) len - 1 : pos - 1; else pos = pos + 1 >= (int) len ? -1 : pos + 1;
    CHECK (r == (pos >= 0), "an element is reached exactly when there is one");
    if (pos >= 0) CHECK (iot_data_iter_value (&it) == seq[pos], "the element at the position"); 
    if (pos < 0) break;
  }
}
#endif
int main (void)
{
  LIVE0;
#if MODE == 0    // names
  {
    unsigned i = (unsigned) symx_choice ("known type", 20);
    CHECK (strcmp (iot_data_type_string ((iot_data_type_t) i), names[i]) == 0, "name of a type");
    char b[16]; strcpy (b, names[i]); unsigned p = (unsigned) symx_choice ("case", 3); for (unsigned k = p; k < strlen (b); k += 2) if (b[k] >= 'a') b[k] = (char) (b[k] - 32); else if (b[k] >= 'A') b[k] = (char) (b[k] + 32);
    CHECK (iot_data_name_type (b) == (iot_data_type_t) i, "type of a name in any case");
  }
  uint8_t t = (uint8_t) symx_input ("type", 8);
  if (t >= IOT_DATA_INVALID) CHECK (strcmp (iot_data_type_string ((iot_data_type_t) t), "Invalid") == 0, "any other type is invalid");
#elif MODE == 4
  char b[12]; unsigned n = 3 + (unsigned) symx_choice ("length", 4); symx_bytes ("name", b, n); b[n] = 0;
  iot_data_type_t r = iot_data_name_type (b), w = IOT_DATA_INVALID;
  for (unsigned i = 0; i < 20; i++) if (strlen (b) == strlen (names[i])) { bool same = true; for (unsigned k = 0; names[i][k]; k++) { char c = b[k]; if (c >= 'A' && c <= 'Z') c = (char) (c + 32); char d = names[i][k]; if (d >= 'A' && d <= 'Z') d = (char) (d + 32); same = same && c == d; } if (same) { w = (iot_data_type_t) i; symx_cover ("named"); } }
  CHECK (r == w, "type of any text");
#elif MODE == 1  // one datum
  iot_data_type_t type, el, key; num_t n; n.u64 = 0;
  iot_data_t * d = make ((unsigned) symx_choice ("kind", IOT_DATA_MAP + 1), &type, &el, &key, &n);
  CHECK (iot_data_type (d) == type && strcmp (iot_data_type_name (d), names[type]) == 0, "type and name");
  uint8_t q = (uint8_t) symx_input ("type", 8); ASSUME (q <= IOT_DATA_INVALID);
  CHECK (iot_data_is_of_type (d, (iot_data_type_t) q) == (q == type), "type predicate");
  CHECK (iot_data_type (NULL) == IOT_DATA_INVALID && !iot_data_is_of_type (NULL, (iot_data_type_t) q), "nothing has no type");
  CHECK (iot_data_is_static (d) == (type == IOT_DATA_BOOL || type == IOT_DATA_NULL), "boolean and null data are static");
  iot_typecode_t tc, want = { type, el, key }; iot_data_typecode (d, &tc);
  CHECK (tc_same (&tc, &want), "type code");
  iot_typecode_t any = tc_in (); CHECK (iot_data_matches (d, &any) == tc_same (&any, &want), "matches exactly its type code");
  CHECK (iot_data_type_size (type) == (type <= IOT_DATA_BOOL ? num_size[type] : type == IOT_DATA_POINTER || type == IOT_DATA_STRING ? sizeof (void*) : type == IOT_DATA_BINARY ? 1 : 0) , "size of a type");
  switch (type)
  {
    case IOT_DATA_INT8: CHECK (iot_data_i8 (d) == n.i8, "value"); break;
    case IOT_DATA_UINT8: CHECK (iot_data_ui8 (d) == n.u8, "value"); break;
    case IOT_DATA_INT16: CHECK (iot_data_i16 (d) == n.i16, "value"); break;
    case IOT_DATA_UINT16: CHECK (iot_data_ui16 (d) == n.u16, "value"); break;
    case IOT_DATA_INT32: CHECK (iot_data_i32 (d) == n.i32, "value"); break;
    case IOT_DATA_UINT32: CHECK (iot_data_ui32 (d) == n.u32, "value"); break;
    case IOT_DATA_INT64: CHECK (iot_data_i64 (d) == n.i64, "value"); break;
    case IOT_DATA_UINT64: CHECK (iot_data_ui64 (d) == n.u64, "value"); break;
    case IOT_DATA_FLOAT32: { num_t m; m.f32 = iot_data_f32 (d); CHECK (m.u32 == n.u32, "value"); bool nan = (n.u32 & 0x7fffffff) > 0x7f800000; CHECK (iot_data_is_nan (d) == nan, "not a number"); break; }
    case IOT_DATA_FLOAT64: { num_t m; m.f64 = iot_data_f64 (d); CHECK (m.u64 == n.u64, "value"); bool nan = (n.u64 & 0x7fffffffffffffffu) > 0x7ff0000000000000u; CHECK (iot_data_is_nan (d) == nan, "not a number"); break; }
    case IOT_DATA_BOOL: CHECK (iot_data_bool (d) == n.b, "value"); break;
    case IOT_DATA_POINTER: CHECK (iot_data_pointer (d) == &some, "value"); break;
    case IOT_DATA_STRING: CHECK (strcmp (iot_data_string (d), "text") == 0, "value"); break;
    case IOT_DATA_ARRAY: CHECK (iot_data_array_type (d) == el && iot_data_array_length (d) == 3 && iot_data_array_size (d) == 3u * num_size[el] && iot_data_length (d) == 3, "array"); break;
    case IOT_DATA_BINARY: CHECK (iot_data_array_length (d) == 2 && iot_data_array_size (d) == 2 && iot_data_length (d) == 2, "binary data"); break;
    case IOT_DATA_VECTOR: CHECK (iot_data_vector_type (d) == el && iot_data_length (d) == 2, "vector"); break;
    case IOT_DATA_LIST: CHECK (iot_data_list_type (d) == el && iot_data_length (d) == 0, "list"); break;
    case IOT_DATA_MAP: CHECK (iot_data_map_type (d) == el && iot_data_map_key_type (d) == key && iot_data_map_key_is_of_type (d, (iot_data_type_t) q) == (q == key) && iot_data_length (d) == 0, "map"); break;
    default: break;
  }
  if (type < IOT_DATA_BINARY) CHECK (iot_data_length (d) == 1, "length of a single value");
  if (!is_float_t (type)) CHECK (!iot_data_is_nan (d), "only floating point data is not a number");
  // static numbers and text
  if (type <= IOT_DATA_UINT64 || type == IOT_DATA_STRING || type == IOT_DATA_POINTER)
  {
    iot_data_static_t st; iot_data_t * c = NULL;
    switch (type)
    {
      case IOT_DATA_INT8: c = iot_data_alloc_const_i8 (&st, n.i8); break; case IOT_DATA_UINT8: c = iot_data_alloc_const_ui8 (&st, n.u8); break;
      case IOT_DATA_INT16: c = iot_data_alloc_const_i16 (&st, n.i16); break; case IOT_DATA_UINT16: c = iot_data_alloc_const_ui16 (&st, n.u16); break;
      case IOT_DATA_INT32: c = iot_data_alloc_const_i32 (&st, n.i32); break; case IOT_DATA_UINT32: c = iot_data_alloc_const_ui32 (&st, n.u32); break;
      case IOT_DATA_INT64: c = iot_data_alloc_const_i64 (&st, n.i64); break; case IOT_DATA_UINT64: c = iot_data_alloc_const_ui64 (&st, n.u64); break;
      case IOT_DATA_STRING: c = iot_data_alloc_const_string (&st, "text"); break;
      default: c = iot_data_alloc_const_pointer (&st, &some); break;
    }
    CHECK (c == IOT_DATA_STATIC (&st) && iot_data_is_static (c) && iot_data_type (c) == type, "static data");
    CHECK (iot_data_equal (c, d) && iot_data_hash (c) == iot_data_hash (d), "static data equals the same allocated data");
    iot_data_free (c); iot_data_t * k = iot_data_copy (c); CHECK (iot_data_equal (k, d), "copy of static data"); iot_data_free (k);
  }
  // tags and metadata do not change the value
  if (type != IOT_DATA_BOOL && type != IOT_DATA_NULL)
  {
    bool tag[2] = { false, false }; uint32_t h = iot_data_hash (d);
    for (int i = 0; i < 3; i++)
    {
      unsigned w = (unsigned) symx_choice ("tag", 2); bool v = symx_choice ("set", 2);
      CHECK (iot_data_set_tag (d, w ? IOT_DATA_TAG_USER2 : IOT_DATA_TAG_USER1, v) == tag[w], "previous tag"); tag[w] = v;
      CHECK (iot_data_get_tag (d, IOT_DATA_TAG_USER1) == tag[0] && iot_data_get_tag (d, IOT_DATA_TAG_USER2) == tag[1], "tags");
    }
    CHECK (iot_data_hash (d) == h && iot_data_type (d) == type, "tags do not change the value");
    iot_data_t * mk = STR ("meta"), * mv = iot_data_alloc_i8 (3), * mw = iot_data_alloc_i8 (4);
    CHECK (iot_data_get_metadata (d, mk) == NULL, "no metadata");
    iot_data_set_metadata (d, mv, mk); CHECK (iot_data_get_metadata (d, mk) == mv, "metadata");
    iot_data_set_metadata (d, mw, mk); CHECK (iot_data_get_metadata (d, mk) == mw, "replaced metadata");
    iot_data_set_metadata (NULL, mw, mk); iot_data_set_metadata (d, NULL, mk); CHECK (iot_data_get_metadata (d, mk) == mw && iot_data_get_metadata (NULL, mk) == NULL && iot_data_get_metadata (d, NULL) == NULL, "nothing is not metadata");
    CHECK (iot_data_hash (d) == h, "metadata does not change the value"); iot_data_free (mk);
  }
  iot_data_free (d);
#elif MODE == 3  // type codes
  iot_typecode_t a = tc_in (), b = tc_in (); (void) make; 
  CHECK (iot_typecode_equal (&a, &b) == tc_same (&a, &b) && iot_typecode_equal (&a, &a) && !iot_typecode_equal (&a, NULL) && !iot_typecode_equal (NULL, &a) && iot_typecode_equal (NULL, NULL), "type codes are equal exactly when all that applies to the type is equal");
#else            // generic iteration
  unsigned k = (unsigned) symx_choice ("container", 3); len = (unsigned) symx_choice ("length", 4);
  iot_data_t * c = k == 0 ? iot_data_alloc_vector (len) : k == 1 ? iot_data_alloc_list () : iot_data_alloc_map (IOT_DATA_UINT8), * keys[3];
  static const uint8_t perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
  unsigned pm = k == 2 && len == 3 ? (unsigned) symx_choice ("order", 6) : 0;
  for (unsigned i = 0; i < len; i++) seq[i] = symx_choice ("pointer", 2) ? iot_data_alloc_pointer (&some + i, NULL) : STR ("s");
  for (unsigned i = 0; i < len; i++)
  {
    unsigned j = len == 3 ? perm[pm][i] : i; (void) keys;
    if (k == 0) iot_data_vector_add (c, j, seq[j]); else if (k == 1) iot_data_list_head_push (c, seq[i]); else iot_data_map_add (c, iot_data_alloc_ui8 ((uint8_t) (10 * j)), seq[j]);
  }
  CHECK (iot_data_length (c) == len, "length");
  if (k == 0) { unsigned f = (unsigned) symx_choice ("find", len + 1); CHECK (iot_data_vector_find (c, cmp, f < len ? (void*) seq[f] : &some) == (f < len ? seq[f] : NULL), "element found"); }
  if (k == 2)
  {
    CHECK (iot_data_map_start (c) == (len ? seq[0] : NULL) && iot_data_map_end (c) == (len ? seq[len - 1] : NULL), "first and last value of a map");
    if (!len || iot_data_type (seq[0]) == IOT_DATA_POINTER) CHECK (iot_data_map_start_pointer (c) == (len ? &some : NULL), "first pointer");
    if (!len || iot_data_type (seq[len - 1]) == IOT_DATA_POINTER) CHECK (iot_data_map_end_pointer (c) == (len ? &some + len - 1 : NULL), "last pointer");
  }
  if (symx_choice ("typed", 2))   // strings and pointers by the container's own iterator, from before the first to after the last
  {
    unsigned hole = k == 0 && len ? (unsigned) symx_choice ("hole", len + 1) : len;
    if (hole < len) { iot_data_t * h = iot_data_alloc_vector (len); for (unsigned i = 0; i < len; i++) if (i != hole) iot_data_vector_add (h, i, iot_data_add_ref (seq[i])); iot_data_free (c); c = h; seq[hole] = NULL; }
    iot_data_vector_iter_t vi; iot_data_list_iter_t li; iot_data_map_iter_t mi;
    if (k == 0) iot_data_vector_iter (c, &vi); else if (k == 1) iot_data_list_iter (c, &li); else iot_data_map_iter (c, &mi);
    for (int i = -1; i < (int) len; i++)
    {
      iot_data_t * d = i < 0 ? NULL : seq[i]; bool sd = d && iot_data_type (d) == IOT_DATA_STRING;
      const char * s = k == 0 ? iot_data_vector_iter_string_value (&vi) : k == 1 ? iot_data_list_iter_string_value (&li) : iot_data_map_iter_string_value (&mi);
      const void * p = k == 0 ? iot_data_vector_iter_pointer_value (&vi) : k == 1 ? iot_data_list_iter_pointer_value (&li) : iot_data_map_iter_pointer_value (&mi);
      CHECK (s == (sd ? iot_data_string (d) : NULL), "the string at the position, if there is one");
      CHECK (p == (d && !sd ? iot_data_pointer (d) : NULL), "the pointer at the position, if there is one");
      if (k == 0) CHECK (iot_data_vector_iter_string (&vi) == s, "the string at the position of a vector");
      if (k == 0) iot_data_vector_iter_next (&vi); else if (k == 1) iot_data_list_iter_next (&li); else iot_data_map_iter_next (&mi);
    }
  }
  else walk (c);
  iot_data_free (c); (void) make;
#endif
  (void) names; (void) cmp; (void) tc_in; (void) tc_same;
  symx_cover ("end");
  LIVE_END ("no leak");
}
