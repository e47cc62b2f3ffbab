// C04: equal data have equal hashes and compare equal, whatever sequence of operations produced them
#include "h.h"
#ifndef N
#define N 3
#endif
static bool always (const iot_data_t * d, const void * arg) { (void) d; (void) arg; return true; }
static bool is_val (const iot_data_t * d, const void * arg) { return d && iot_data_ui8 (d) == *(const uint8_t*) arg; }
static void same (iot_data_t * d, iot_data_t * fresh)
{
  CHECK (iot_data_hash (d) == iot_data_hash (fresh), "hash depends only on the content");
  CHECK (iot_data_equal (d, fresh), "data equals freshly built equal data");
  CHECK (iot_data_equal (fresh, d) && iot_data_compare (d, fresh) == 0, "compare equal");
  iot_data_t * c = iot_data_copy (d);
  CHECK (iot_data_equal (c, d) && iot_data_hash (c) == iot_data_hash (d), "copy equals original");
  iot_data_free (c);
}
static void peek (const iot_data_t * d) { if (symx_choice ("peek", 2)) iot_data_hash (d); }
int main (void)
{
  LIVE0;
#if MODE == 0
  iot_data_type_t t = TA;
  num_t n = num_in ("v", t);
  bool inc = symx_choice ("inc", 2);
  if (is_float_t (t)) { double d = t == IOT_DATA_FLOAT32 ? n.f32 : n.f64; ASSUME (d > -4e18 && d < 4e18); }
  iot_data_t * d = num_alloc (t, n);
  num_t e = n;
  // no overflow: signed overflow is outside the contract
#define STEP(f, lo, hi) ASSUME (inc ? n.f != (hi) : n.f != (lo)); e.f = inc ? n.f + 1 : n.f - 1; break
  switch (t)
  {
    case IOT_DATA_INT8: STEP (i8, INT8_MIN, INT8_MAX);
    case IOT_DATA_UINT8: STEP (u8, 0, UINT8_MAX);
    case IOT_DATA_INT16: STEP (i16, INT16_MIN, INT16_MAX);
    case IOT_DATA_UINT16: STEP (u16, 0, UINT16_MAX);
    case IOT_DATA_INT32: STEP (i32, INT32_MIN, INT32_MAX);
    case IOT_DATA_UINT32: STEP (u32, 0, UINT32_MAX);
    case IOT_DATA_INT64: STEP (i64, INT64_MIN, INT64_MAX);
    case IOT_DATA_UINT64: STEP (u64, 0, UINT64_MAX);
    case IOT_DATA_FLOAT32: e.f32 = inc ? n.f32 + 1 : n.f32 - 1; break;
    default: e.f64 = inc ? n.f64 + 1 : n.f64 - 1; break;
  }
  if (inc) iot_data_increment (d); else iot_data_decrement (d);
  num_t r; r.u64 = 0; memcpy (r.raw, iot_data_address (d), num_size[t]);
  CHECK (num_same (t, r, e), "increment and decrement change the value by one");
  iot_data_t * f = num_alloc (t, e);
  same (d, f);
  symx_cover ("end");
  iot_data_free (d); iot_data_free (f);
#elif MODE == 1
  int m[4]; unsigned size = (unsigned) symx_choice ("size", 3);
  for (unsigned i = 0; i < 4; i++) m[i] = -1;
  iot_data_t * v = iot_data_alloc_vector (size);
  if (size && symx_choice ("fill", 2)) for (unsigned i = 0; i < size; i++) { m[i] = IN_U8 ("x"); iot_data_vector_add (v, i, iot_data_alloc_ui8 ((uint8_t) m[i])); }
  for (int i = 0; i < N; i++)
  {
    peek (v);
    unsigned op = (unsigned) symx_choice ("op", 4);
    if (op == 0 && size) { unsigned ix = (unsigned) symx_choice ("ix", size); uint8_t x = IN_U8 ("x"); iot_data_vector_add (v, ix, iot_data_alloc_ui8 (x)); m[ix] = x; }
    else if (op == 1 && size)
    {
      unsigned ix = (unsigned) symx_choice ("ix", size); iot_data_vector_iter_t it; iot_data_vector_iter (v, &it); for (unsigned j = 0; j <= ix; j++) iot_data_vector_iter_next (&it);
      uint8_t x = IN_U8 ("x"); iot_data_free (iot_data_vector_iter_replace_value (&it, iot_data_alloc_ui8 (x))); m[ix] = x;
    }
    else if (op == 2) { unsigned ns = (unsigned) symx_choice ("ns", 4); iot_data_vector_resize (v, ns); for (unsigned j = size; j < ns; j++) m[j] = -1; size = ns; }
    else if (op == 3)
    {
      if (size && symx_choice ("del", 2)) { unsigned ix = (unsigned) symx_choice ("ix", size); iot_data_vector_add (v, ix, NULL); m[ix] = -1; }
      else { unsigned k = 0; for (unsigned j = 0; j < size; j++) if (m[j] >= 0) m[k++] = m[j]; size = k; CHECK (iot_data_vector_compact (v) == k, "compact size"); }
    }
  }
  iot_data_t * f = iot_data_alloc_vector (size);
  for (unsigned i = 0; i < size; i++) if (m[i] >= 0) iot_data_vector_add (f, i, iot_data_alloc_ui8 ((uint8_t) m[i]));
  same (v, f);
  symx_cover ("end");
  iot_data_free (v); iot_data_free (f);
#elif MODE == 2
  uint8_t q[2 * N + 8], * h = q + N, * t = q + N; // values from tail (t) to head (h), h exclusive
  iot_data_t * l = iot_data_alloc_list ();
  for (unsigned k = (unsigned) symx_choice ("fill", 4); k; k--) { uint8_t x = IN_U8 ("x"); iot_data_list_head_push (l, iot_data_alloc_ui8 (x)); *h++ = x; }
  for (int i = 0; i < N; i++)
  {
    peek (l);
    switch (symx_choice ("op", 6))
    {
      case 0: { uint8_t x = IN_U8 ("x"); iot_data_list_head_push (l, iot_data_alloc_ui8 (x)); *h++ = x; break; }
      case 1: { uint8_t x = IN_U8 ("x"); iot_data_list_tail_push (l, iot_data_alloc_ui8 (x)); *--t = x; break; }
      case 2: if (h > t) { iot_data_free (iot_data_list_head_pop (l)); h--; } break;
      case 3: if (h > t) { iot_data_free (iot_data_list_tail_pop (l)); t++; } break;
      case 4: if (h > t)
      {
        unsigned ix = (unsigned) symx_choice ("ix", (uint64_t) (h - t)); iot_data_list_iter_t it; iot_data_list_iter (l, &it); for (unsigned j = 0; j <= ix; j++) iot_data_list_iter_next (&it);
        if (symx_choice ("rm", 2)) { iot_data_list_iter_remove (&it); for (uint8_t * p = t + ix; p + 1 < h; p++) *p = p[1]; h--; }
        else { uint8_t x = IN_U8 ("x"); iot_data_free (iot_data_list_iter_replace (&it, iot_data_alloc_ui8 (x))); t[ix] = x; }
      } break;
      default: if (h > t) { uint8_t x = t[symx_choice ("ix", (uint64_t) (h - t))]; iot_data_list_remove (l, is_val, &x); uint8_t * p = t; while (*p != x) p++; for (; p + 1 < h; p++) *p = p[1]; h--; } break;
    }
  }
  iot_data_t * f = iot_data_alloc_list ();
  for (uint8_t * p = t; p < h; p++) iot_data_list_head_push (f, iot_data_alloc_ui8 (*p));
  same (l, f);
  symx_cover ("end");
  iot_data_free (l); iot_data_free (f);
#elif MODE == 3
  int m[3] = { -1, -1, -1 }; // value per key
  uint8_t k[3]; for (int i = 0; i < 3; i++) k[i] = IN_U8 ("k"); ASSUME (k[0] != k[1] && k[0] != k[2] && k[1] != k[2]);
  iot_data_t * mp = iot_data_alloc_map (IOT_DATA_UINT8);
  if (symx_choice ("fill", 2)) { ASSUME (k[0] < k[1] && k[1] < k[2]); for (int i = 0; i < 3; i++) { m[i] = IN_U8 ("x"); iot_data_map_add (mp, iot_data_alloc_ui8 (k[i]), iot_data_alloc_ui8 ((uint8_t) m[i])); } }
  for (int i = 0; i < N; i++)
  {
    peek (mp);
    unsigned ix = (unsigned) symx_choice ("ix", 3); uint8_t x = IN_U8 ("x");
    switch (symx_choice ("op", 5))
    {
      case 0: iot_data_map_add (mp, iot_data_alloc_ui8 (k[ix]), iot_data_alloc_ui8 (x)); m[ix] = x; break;
      case 1: { iot_data_t * kd = iot_data_alloc_ui8 (k[ix]), * xd = iot_data_alloc_ui8 (x); if (iot_data_map_add_unused (mp, kd, xd)) m[ix] = x; else { iot_data_free (kd); iot_data_free (xd); } break; }
      case 2: { iot_data_t * kd = iot_data_alloc_ui8 (k[ix]); iot_data_map_remove (mp, kd); iot_data_free (kd); m[ix] = -1; break; }
      case 3: { iot_data_map_iter_t it; iot_data_map_iter (mp, &it); while (iot_data_map_iter_next (&it)) if (iot_data_ui8 (iot_data_map_iter_key (&it)) == k[ix]) { iot_data_free (iot_data_map_iter_replace_value (&it, iot_data_alloc_ui8 (x))); m[ix] = x; } break; }
      default: { iot_data_t * o = iot_data_alloc_map (IOT_DATA_UINT8); iot_data_map_add (o, iot_data_alloc_ui8 (k[ix]), iot_data_alloc_ui8 (x)); iot_data_map_merge (mp, o); iot_data_free (o); m[ix] = x; break; }
    }
  }
  iot_data_t * f = iot_data_alloc_map (IOT_DATA_UINT8);
  for (int i = 2; i >= 0; i--) if (m[i] >= 0) iot_data_map_add (f, iot_data_alloc_ui8 (k[i]), iot_data_alloc_ui8 ((uint8_t) m[i]));
  same (mp, f);
  symx_cover ("end");
  iot_data_free (mp); iot_data_free (f);
#else
  switch (symx_choice ("case", 5))
  {
    case 0: // base64 text replaced by the bytes it encodes
    {
      iot_data_t * mp = iot_data_alloc_map (IOT_DATA_STRING), * f = iot_data_alloc_map (IOT_DATA_STRING), * key = STR ("key");
      uint8_t exp[3]; char b[5]; const char * tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      uint8_t c0 = (uint8_t) in_range ("c0", 8, 0, 3), c1 = (uint8_t) in_range ("c1", 8, 0, 3);
      b[0] = tab[c0]; b[1] = tab[c1]; b[2] = 'A'; b[3] = 'B'; b[4] = 0;
      exp[0] = (uint8_t) ((c0 << 2) | (c1 >> 4)); exp[1] = (uint8_t) (c1 << 4); exp[2] = 1;
      iot_data_map_add (mp, iot_data_add_ref (key), STR (b)); iot_data_map_add (f, iot_data_add_ref (key), iot_data_alloc_array (exp, 3, IOT_DATA_UINT8, IOT_DATA_COPY));
      peek (mp);
      CHECK (iot_data_map_base64_to_array (mp, key), "decodes");
      same (mp, f); iot_data_free (mp); iot_data_free (f); iot_data_free (key);
      break;
    }
    case 1: // buffer taken away leaves an empty array
    {
      uint8_t d[3]; symx_bytes ("d", d, 3); uint32_t len;
      iot_data_t * a = iot_data_alloc_array (d, 3, IOT_DATA_UINT8, IOT_DATA_COPY), * f = iot_data_alloc_array (NULL, 0, IOT_DATA_UINT8, IOT_DATA_COPY);
      free (iot_data_binary_take (a, &len)); CHECK (len == 3, "taken length");
      same (a, f); iot_data_free (a); iot_data_free (f);
      break;
    }
    case 2: // empty array, however it was made
    {
      uint8_t d[1] = { 1 };
      iot_data_t * a = iot_data_alloc_array (d, 0, IOT_DATA_UINT8, symx_choice ("own", 2) ? IOT_DATA_COPY : IOT_DATA_REF), * f = iot_data_alloc_array (NULL, 0, IOT_DATA_UINT8, IOT_DATA_TAKE);
      same (a, f); iot_data_free (a); iot_data_free (f);
      break;
    }
    case 3: // strings, constant or not, taken, copied or referenced
    {
      char s[3]; symx_bytes ("s", s, 2); s[2] = 0; iot_data_static_t st;
      iot_data_t * a = STR (s), * r = iot_data_alloc_string (s, IOT_DATA_REF), * t = iot_data_alloc_string (strdup (s), IOT_DATA_TAKE), * c = iot_data_alloc_const_string (&st, s), * p = iot_data_alloc_string_fmt ("%s", s);
      same (a, r); same (t, a); same (p, a); CHECK (iot_data_equal (c, a) && iot_data_hash (c) == iot_data_hash (a), "constant string equals");
      iot_data_free (a); iot_data_free (r); iot_data_free (t); iot_data_free (c); iot_data_free (p);
      break;
    }
    default: // constants of every integer type
    {
      uint64_t v = IN_U64 ("v"); iot_data_static_t s[8];
      iot_data_t * a[8] = { iot_data_alloc_i8 ((int8_t) v), iot_data_alloc_ui8 ((uint8_t) v), iot_data_alloc_i16 ((int16_t) v), iot_data_alloc_ui16 ((uint16_t) v), iot_data_alloc_i32 ((int32_t) v), iot_data_alloc_ui32 ((uint32_t) v), iot_data_alloc_i64 ((int64_t) v), iot_data_alloc_ui64 (v) };
      iot_data_t * c[8] = { iot_data_alloc_const_i8 (&s[0], (int8_t) v), iot_data_alloc_const_ui8 (&s[1], (uint8_t) v), iot_data_alloc_const_i16 (&s[2], (int16_t) v), iot_data_alloc_const_ui16 (&s[3], (uint16_t) v), iot_data_alloc_const_i32 (&s[4], (int32_t) v), iot_data_alloc_const_ui32 (&s[5], (uint32_t) v), iot_data_alloc_const_i64 (&s[6], (int64_t) v), iot_data_alloc_const_ui64 (&s[7], v) };
      for (int i = 0; i < 8; i++) { CHECK (iot_data_equal (a[i], c[i]) && iot_data_hash (a[i]) == iot_data_hash (c[i]), "constant equals allocated"); CHECK (iot_data_is_static (c[i]) && !iot_data_is_static (a[i]), "static flag"); iot_data_free (a[i]); iot_data_free (c[i]); }
      break;
    }
  }
  symx_cover ("end");
#endif
  LIVE_END ("no leak");
}
