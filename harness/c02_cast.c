// C02: every numeric conversion either reports failure or yields exactly the value; conversions agree across entry points
#include "h.h"
extern iot_data_t * iot_data_transform (const iot_data_t * data, iot_data_type_t type);
int main (void)
{
  LIVE0;
  iot_data_type_t from = FROM;
  iot_data_type_t to = (iot_data_type_t) symx_choice ("to", 11);
  num_t n = num_in ("v", from), exp, out;
  bool ok = num_convert (from, n, to, &exp);
  out.u64 = 0;
  uint8_t guard[16]; memset (guard, 0xA5, sizeof (guard));
#if MODE == 0
  iot_data_t * d = num_alloc (from, n);
  bool r = iot_data_cast (d, to, guard);
  CHECK (r == ok, "cast succeeds exactly when the value is in range of the target type");
  memcpy (out.raw, guard, num_size[to]);
  if (ok) { symx_cover ("ok"); CHECK (num_same (to, out, exp), "cast value"); } else symx_cover ("refused");
  for (unsigned i = num_size[to]; i < sizeof (guard); i++) CHECK (guard[i] == 0xA5, "cast writes only the target value");
  iot_data_free (d);
#elif MODE == 1
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
  iot_data_string_map_add (m, "k", num_alloc (from, n));
  iot_data_static_t ks; iot_data_t * key = iot_data_alloc_const_string (&ks, "k");
  bool r = symx_choice ("api", 2) ? iot_data_string_map_get_number (m, "k", to, guard) : iot_data_map_get_number (m, key, to, guard);
  CHECK (r == ok, "typed lookup succeeds exactly when the value is in range");
  memcpy (out.raw, guard, num_size[to]);
  if (ok) { symx_cover ("ok"); CHECK (num_same (to, out, exp), "typed lookup value"); } else symx_cover ("refused");
  CHECK (!iot_data_string_map_get_number (m, "x", to, guard), "absent key is not a number");
  iot_data_free (m);
#elif MODE == 2
  if (from == to) { ok = true; exp = n; } // transform to its own type is the value itself
  iot_data_t * d = num_alloc (from, n);
  iot_data_t * t = iot_data_transform (d, to);
  CHECK ((t != NULL) == ok, "transform succeeds exactly when the value is in range");
  if (t) { symx_cover ("ok"); CHECK (iot_data_type (t) == to, "transform type"); memcpy (out.raw, iot_data_address (t), num_size[to]); CHECK (num_same (to, out, exp), "transform value"); } else symx_cover ("refused");
  iot_data_free (t); iot_data_free (d);
#else
  num_t n2 = num_in ("w", from), exp2;
  bool ok2 = num_convert (from, n2, to, &exp2);
  uint8_t * buff = malloc (2 * num_size[from]); // exact size: an over-read is an error
  memcpy (buff, n.raw, num_size[from]); memcpy (buff + num_size[from], n2.raw, num_size[from]);
  iot_data_t * a = iot_data_alloc_array (buff, 2, from, IOT_DATA_TAKE);
  iot_data_t * t = iot_data_array_transform (a, to);
  uint32_t cnt = (ok ? 1u : 0u) + (ok2 ? 1u : 0u);
  CHECK (iot_data_array_length (t) == cnt, "array transform keeps exactly the convertible elements");
  CHECK (iot_data_array_type (t) == to, "array transform type");
  const uint8_t * p = iot_data_address (t);
  if (ok) { symx_cover ("ok"); memcpy (out.raw, p, num_size[to]); CHECK (num_same (to, out, exp), "array transform value"); p += num_size[to]; } else symx_cover ("refused");
  if (ok2) { out.u64 = 0; memcpy (out.raw, p, num_size[to]); CHECK (num_same (to, out, exp2), "array transform second value"); }
  iot_data_free (t); iot_data_free (a);
#endif
  LIVE_END ("no leak");
}
