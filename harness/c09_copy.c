// C09: copies equal their source, keep its types and metadata, and are independent of it; compression keeps the value
#include "val.h"
static void mutate (iot_data_t * d)
{
  switch (iot_data_type (d))
  {
    case IOT_DATA_VECTOR: for (uint32_t i = 0; i < iot_data_vector_size (d); i++) { iot_data_t * e = (iot_data_t*) iot_data_vector_get (d, i); if (e) mutate (e); } iot_data_vector_resize (d, iot_data_vector_size (d) + 1); break;
    case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) mutate ((iot_data_t*) iot_data_list_iter_value (&it)); iot_data_list_head_push (d, STR ("extra")); break; }
    case IOT_DATA_MAP: { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) mutate ((iot_data_t*) iot_data_map_iter_value (&it)); iot_data_string_map_add (d, "\x7f\x7f", STR ("extra")); break; }
    case IOT_DATA_STRING: if (strlen (iot_data_string (d))) ((char*) iot_data_string (d))[0] ^= 1; break;
    case IOT_DATA_ARRAY: case IOT_DATA_BINARY: if (iot_data_array_length (d)) ((uint8_t*) iot_data_address (d))[0] ^= 1; break;
    case IOT_DATA_INT8: case IOT_DATA_UINT8: { num_t n; iot_data_cast (d, iot_data_type (d), &n); if (n.u8 != 127) iot_data_increment (d); break; }
    case IOT_DATA_UINT64: iot_data_increment (d); break;
    default: break;
  }
}
static bool shares (const iot_data_t * a, const iot_data_t * b)  // any non static datum reachable from both
{
  if (!a || !b || iot_data_is_static (a)) return false;
  if (a == b) return true;
  if (iot_data_type (a) == IOT_DATA_VECTOR && iot_data_vector_size (a) == iot_data_vector_size (b)) for (uint32_t i = 0; i < iot_data_vector_size (a); i++) if (shares (iot_data_vector_get (a, i), iot_data_vector_get (b, i))) return true;
  return false;
}
int main (void)
{
  LIVE0;
#if MODE == 3      // containers restricted to one type of key or element
  static const iot_data_type_t ts[] = { IOT_DATA_INT8, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_STRING, IOT_DATA_NULL, IOT_DATA_VECTOR, IOT_DATA_MULTI };
  unsigned k = (unsigned) symx_choice ("kind", 3), n = (unsigned) symx_choice ("n", 3); iot_data_type_t et = ts[symx_choice ("element", 7)]; iot_data_t * d, * e[2];
  for (unsigned i = 0; i < 2; i++) e[i] = et == IOT_DATA_STRING ? STR ("s") : et == IOT_DATA_NULL ? iot_data_alloc_null () : et == IOT_DATA_VECTOR ? iot_data_alloc_typed_vector (1, IOT_DATA_UINT8) : num_alloc (et == IOT_DATA_MULTI ? IOT_DATA_BOOL : et, (num_t) { .u64 = i });
  iot_data_type_t kt = symx_choice ("key", 2) ? IOT_DATA_UINT8 : IOT_DATA_MULTI;
  d = k == 0 ? iot_data_alloc_typed_vector (2, et) : k == 1 ? iot_data_alloc_typed_list (et) : iot_data_alloc_typed_map (kt, et);
  for (unsigned i = 0; i < n; i++) k == 0 ? iot_data_vector_add (d, i, iot_data_add_ref (e[i])) : k == 1 ? iot_data_list_head_push (d, iot_data_add_ref (e[i])) : iot_data_map_add (d, iot_data_alloc_ui8 ((uint8_t) i), iot_data_add_ref (e[i]));
  bool shallow = symx_choice ("shallow", 2);
  iot_data_t * c = shallow ? iot_data_shallow_copy (d) : iot_data_copy (d);
  iot_typecode_t ta, tb; iot_data_typecode (c, &ta); iot_data_typecode (d, &tb);
  CHECK (ta.type == tb.type && ta.element_type == tb.element_type && ta.key_type == tb.key_type && iot_typecode_equal (&ta, &tb) && iot_data_matches (c, &tb), "copy has the same type code");
  CHECK (ta.element_type == et && (k != 2 || ta.key_type == kt), "type code is the declared one");
  CHECK (iot_data_equal (c, d), "copy equals the source");
  if (k == 0 && et == IOT_DATA_VECTOR && n) { const iot_data_t * x = iot_data_vector_get (c, 0); CHECK (iot_data_vector_type (x) == IOT_DATA_UINT8 && (x == e[0]) == shallow, "nested containers keep their type code too"); }
  iot_data_free (c); iot_data_free (d); iot_data_free (e[0]); iot_data_free (e[1]);
  symx_cover ("end");
  LIVE_END ("no leak");
  return 0;
#else
  val_t * p = v_gen (KINDS, INNER, MAXN);
  iot_data_t * d = v_make (p), * f = v_make (p);
#if MODE == 0
  iot_data_t * key = STR ("k"); bool meta = !iot_data_is_static (d) && symx_choice ("meta", 2);
  if (meta) iot_data_set_metadata (d, STR ("m"), key);
  iot_typecode_t ta, tb;
  iot_data_t * c = iot_data_copy (d);
  CHECK (iot_data_equal (c, f) && iot_data_equal (d, f) && iot_data_hash (c) == iot_data_hash (f), "copy equals the source");
  iot_data_typecode (c, &ta); iot_data_typecode (d, &tb);
  CHECK (ta.type == tb.type && ta.element_type == tb.element_type && ta.key_type == tb.key_type && iot_data_matches (c, &tb), "copy has the same type code");
  CHECK (iot_data_is_static (d) || c != d, "copy is a new datum");
  CHECK (!shares (c, d), "copy shares nothing with the source");
  if (meta) { const iot_data_t * m = iot_data_get_metadata (c, key); CHECK (m && strcmp (iot_data_string (m), "m") == 0, "copy has the metadata"); }
  iot_data_free (key);
  bool which = symx_choice ("mutate copy", 2);
  if (!iot_data_is_static (d)) mutate (which ? c : d);
  CHECK (iot_data_compare (which ? d : c, f) == 0, "changing one leaves the other as it was");
  iot_data_free (c);
#elif MODE == 1
  iot_data_t * c = iot_data_shallow_copy (d);
  CHECK (iot_data_equal (c, f), "shallow copy equals the source");
  iot_typecode_t ta, tb; iot_data_typecode (c, &ta); iot_data_typecode (d, &tb);
  CHECK (iot_typecode_equal (&ta, &tb), "shallow copy has the same type code");
  bool comp = p->type == IOT_DATA_VECTOR || p->type == IOT_DATA_LIST || p->type == IOT_DATA_MAP;
  CHECK (comp ? c != d : c == d, "only containers are duplicated");
  if (p->type == IOT_DATA_VECTOR) for (uint32_t i = 0; i < p->cnt; i++) CHECK (iot_data_vector_get (c, i) == iot_data_vector_get (d, i), "elements are shared");
  if (p->type == IOT_DATA_VECTOR) iot_data_vector_resize (c, 3);
  if (p->type == IOT_DATA_LIST) iot_data_list_empty (c);
  if (p->type == IOT_DATA_MAP) iot_data_map_empty (c);
  CHECK (iot_data_equal (d, f), "changing the copy's structure leaves the source as it was");
  iot_data_free (c);
#else
  iot_data_compress (d);
  CHECK (iot_data_equal (d, f) && iot_data_hash (d) == iot_data_hash (f), "compression keeps the value");
  if (p->type == IOT_DATA_VECTOR && p->cnt == 2)
  {
    const iot_data_t * a = iot_data_vector_get (d, 0), * b = iot_data_vector_get (d, 1);
    if (a && b && v_eq (p->el[0], p->el[1])) { CHECK (a == b, "duplicate elements are shared"); CHECK (iot_data_is_static (a) || iot_data_ref_count (a) == 2, "and nothing else holds them"); symx_cover ("dup"); }
    else if (a && b && !v_eq (p->el[0], p->el[1])) CHECK (a != b, "different elements stay apart");
  }
  iot_data_t * cache = iot_data_alloc_map (IOT_DATA_MULTI); iot_data_t * g = v_make (p);
  iot_data_compress_with_cache (g, cache); iot_data_compress_with_cache (d, cache);
  CHECK (iot_data_equal (d, f) && iot_data_equal (g, f), "compression with a shared cache keeps the values");
  iot_data_free (g); iot_data_free (cache);
  CHECK (iot_data_equal (d, f), "value outlives the cache");
#endif
  symx_log (iot_data_hash (f));
  iot_data_free (d); iot_data_free (f);
  symx_cover ("end");
  LIVE_END ("no leak");
#endif
}
