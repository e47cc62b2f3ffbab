// C05: typed lookups return the stored value when its type matches and the default otherwise
#include "val.h"
int main (void)
{
  LIVE0;
  iot_data_t * map = iot_data_alloc_map (IOT_DATA_STRING);
  static const iot_data_type_t ty[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT16, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT64, IOT_DATA_BOOL, IOT_DATA_NULL, IOT_DATA_STRING, IOT_DATA_POINTER, IOT_DATA_BINARY, IOT_DATA_ARRAY, IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP };
  iot_data_type_t t = ty[symx_choice ("type", sizeof (ty) / sizeof (*ty))];
  num_t n = { 0 }; int marker; iot_data_t * v; char s[2] = { 0, 0 };
  switch (t)
  {
    case IOT_DATA_NULL: v = iot_data_alloc_null (); break;
    case IOT_DATA_STRING: s[0] = (char) IN_U8 ("s"); v = STR (s); break;
    case IOT_DATA_POINTER: v = iot_data_alloc_pointer (&marker, NULL); break;
    case IOT_DATA_BINARY: v = iot_data_alloc_binary (s, 1, IOT_DATA_COPY); break;
    case IOT_DATA_ARRAY: v = iot_data_alloc_array (s, 1, IOT_DATA_UINT8, IOT_DATA_COPY); break;
    case IOT_DATA_VECTOR: v = iot_data_alloc_vector (1); break;
    case IOT_DATA_LIST: v = iot_data_alloc_list (); break;
    case IOT_DATA_MAP: v = iot_data_alloc_map (IOT_DATA_STRING); break;
    default: n = num_in ("n", t); if (t == IOT_DATA_FLOAT64) ASSUME (n.f64 == n.f64 && n.f64 < 1e18 && n.f64 > -1e18); v = num_alloc (t, n); break;
  }
  iot_data_string_map_add (map, "m", v);
  iot_data_string_map_add (map, "a", iot_data_alloc_ui8 (1));
  iot_data_string_map_add (map, "z", iot_data_alloc_ui8 (2));
  iot_data_static_t ks; iot_data_t * k = iot_data_alloc_const_string (&ks, "m");
  bool sapi = symx_choice ("string api", 2);
#define G(f, ...) (sapi ? iot_data_string_map_get_##f (map, "m", ##__VA_ARGS__) : iot_data_map_get_##f (map, k, ##__VA_ARGS__))
  int64_t di = (int64_t) IN_U64 ("default"); bool db = di & 1;
  CHECK (G (i64, di) == (t == IOT_DATA_INT64 ? n.i64 : di), "signed 64 bit value or default");
  CHECK (G (ui64, (uint64_t) di) == (t == IOT_DATA_UINT64 ? n.u64 : (uint64_t) di), "unsigned 64 bit value or default");
  CHECK (G (bool, db) == (t == IOT_DATA_BOOL ? n.b : db), "bool value or default");
  CHECK (G (f64, 2.5) == (t == IOT_DATA_FLOAT64 ? n.f64 : 2.5), "double value or default");
  const char * gs = G (string); CHECK ((gs != NULL) == (t == IOT_DATA_STRING) && (!gs || (gs[0] == s[0] && (!gs[0] || !gs[1]))), "string value or NULL");
  CHECK (G (pointer) == (t == IOT_DATA_POINTER ? (void*) &marker : NULL), "pointer value or NULL");
  CHECK (G (vector) == (t == IOT_DATA_VECTOR ? v : NULL), "vector or NULL");
  CHECK (G (list) == (t == IOT_DATA_LIST ? v : NULL), "list or NULL");
  CHECK (G (map) == (t == IOT_DATA_MAP ? v : NULL), "map or NULL");
  CHECK (iot_data_map_get_array (map, k) == (t == IOT_DATA_ARRAY ? v : NULL), "array or NULL");
  int iv = 0; bool r = G (int, &iv);
  num_t e; bool er = t <= IOT_DATA_BOOL && num_convert (t, n, IOT_DATA_INT32, &e);
  CHECK (r == er && (!r || iv == e.i32), "int value when in range");
  CHECK (iot_data_string_map_get (map, "m") == v && iot_data_string_map_get (map, "mm") == NULL && iot_data_string_map_get (map, "") == NULL, "string lookup is exact");
  iot_data_map_iter_t it; iot_data_map_iter (map, &it); iot_data_map_iter_next (&it); iot_data_map_iter_next (&it);
  CHECK (strcmp (iot_data_map_iter_string_key (&it), "m") == 0, "iterator key string");
  CHECK (iot_data_map_iter_value (&it) == v, "iterator value");
  gs = iot_data_map_iter_string_value (&it); CHECK ((gs != NULL) == (t == IOT_DATA_STRING), "iterator string value");
  CHECK (iot_data_map_iter_pointer_value (&it) == (t == IOT_DATA_POINTER ? (void*) &marker : NULL), "iterator pointer value");
  if (t == IOT_DATA_BOOL) CHECK (iot_data_map_iter_bool_value (&it) == n.b, "iterator bool value");
  CHECK (iot_data_string_map_remove (map, "m") && !iot_data_string_map_remove (map, "m") && iot_data_map_size (map) == 2, "string remove");
  symx_cover ("end");
  iot_data_free (map);
  LIVE_END ("no leak");
}
