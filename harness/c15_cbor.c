// Writing data as CBOR, read back by an independent RFC 8949 reader
#include "val.h"
static const uint8_t * p; static uint32_t left;
static uint8_t byte (void) { CHECK (left > 0, "output is complete"); left--; return *p++; }
// initial byte and argument of the next item
static unsigned head (uint64_t * arg)
{
  uint8_t b = byte (); unsigned ai = b & 31;
  *arg = ai;
  if (ai >= 24)
  {
    CHECK (ai <= 27, "additional information of the initial byte is valid");
    *arg = 0; for (unsigned n = 1u << (ai - 24); n; n--) *arg = *arg << 8 | byte ();
  }
  return b >> 5 == 7 ? 0x700 | ai : b >> 5;
}
static void rd_num (iot_data_type_t t, num_t v)
{
  uint64_t a; unsigned m = head (&a);
  if (t == IOT_DATA_BOOL) { CHECK (m == (v.b ? 0x715 : 0x714), "boolean"); return; }
  if (t == IOT_DATA_FLOAT32) { CHECK (m == 0x71a && (uint32_t) a == v.u32, "single precision number"); return; }
  if (t == IOT_DATA_FLOAT64) { CHECK (m == 0x71b && a == v.u64, "double precision number"); return; }
  int_t i = int_of (t, v);
  if (!i.neg) { CHECK (m == 0 && a == i.v, "unsigned integer"); return; }
  CHECK (m == 1, "negative integer");
  if (a == 0 - i.v) { if (symx_choice ("known", 2)) CHECK (false, "KF:cbor-negative negative integer -n is written as n rather than n - 1, so is read as -n - 1"); return; }
  CHECK (a == ~i.v, "negative integer -n is written as n - 1");
}
static void rd_bytes (unsigned major, const char * s, unsigned n)
{
  uint64_t a; unsigned m = head (&a);
  CHECK (m == major && a == n, "type and length of bytes or text"); CHECK (left >= n, "output is complete");
  CHECK (memcmp (p, s, n) == 0, "content of bytes or text");
  p += n; left -= n;
}
static void rd_count (unsigned major, unsigned n) { uint64_t a; unsigned m = head (&a); CHECK (m == major && a == n, "type and number of elements"); }
static void rd_null (void) { uint64_t a; CHECK (head (&a) == 0x716, "null"); }
static void rd (const val_t * v)
{
  switch (v->type)
  {
    case IOT_DATA_INVALID: case IOT_DATA_NULL: rd_null (); break;
    case IOT_DATA_STRING: rd_bytes (3, v->s, v->len); break;
    case IOT_DATA_BINARY: rd_bytes (2, v->s, v->len); break;
    case IOT_DATA_ARRAY: rd_count (4, v->len); for (unsigned i = 0; i < v->len; i++) { num_t n; n.u64 = (uint8_t) v->s[i]; rd_num (IOT_DATA_UINT8, n); } break;
    case IOT_DATA_VECTOR: case IOT_DATA_LIST: rd_count (4, v->cnt); for (unsigned i = 0; i < v->cnt; i++) rd (v->el[i]); break;
    case IOT_DATA_MAP: rd_count (5, v->cnt); for (unsigned i = 0; i < v->cnt; i++) { rd (v->key[i]); rd (v->el[i]); } break;
    default: rd_num (v->type, v->n); break;
  }
}
static iot_data_t * out (const iot_data_t * d)
{
  unsigned how = (unsigned) symx_choice ("buffer", 4);
  iot_data_t * c = how == 0 ? iot_data_to_cbor (d) : iot_data_to_cbor_with_size (d, (const uint32_t []) { 0, 1, 3, 8 }[how]);
  CHECK (iot_data_type (c) == IOT_DATA_BINARY, "yields binary data");
  p = iot_data_address (c); left = iot_data_array_size (c);
  return c;
}
int main (void)
{
  LIVE0;
  iot_data_t * d, * c;
#if MODE == 0    // numbers: on their own, in an array, in a vector, as key
  num_t v = num_in ("v", TY), w = num_in ("w", TY); unsigned shape = (unsigned) symx_choice ("shape", 4);
  switch (shape)
  {
    case 0: d = num_alloc (TY, v); break;
    case 1: { uint8_t raw[16]; memcpy (raw, v.raw, num_size[TY]); memcpy (raw + num_size[TY], w.raw, num_size[TY]); d = iot_data_alloc_array (raw, 2, TY, IOT_DATA_COPY); break; }
    case 2: d = iot_data_alloc_vector (2); iot_data_vector_add (d, 0, num_alloc (TY, v)); iot_data_vector_add (d, 1, num_alloc (TY, w)); break;
    default: d = iot_data_alloc_map (TY); iot_data_map_add (d, num_alloc (TY, v), num_alloc (TY, w)); break;
  }
  c = out (d);
  if (shape == 1 || shape == 2) rd_count (4, 2); else if (shape == 3) rd_count (5, 1);
  rd_num (TY, v); if (shape) rd_num (TY, w);
#elif MODE == 1  // lengths around the limits of each form of length
  static const unsigned at[] = { 0, 1, 23, 24, 25, 255, 256, 257, 600, 1100, 2500, 5000, 65535, 65536 };
  unsigned n = at[symx_choice ("length", LENS)], what = (unsigned) symx_choice ("what", 5); char * s = malloc (n + 1);
  for (unsigned i = 0; i < n; i++) s[i] = (char) ('a' + i % 23);
  s[n] = 0;
  if (n) { s[0] = (char) symx_input ("first", 8); s[n - 1] = (char) symx_input ("last", 8); ASSUME (s[0] && s[n - 1]); }
  if (what > 2 && n > 300) symx_prune ();
  switch (what)
  {
    case 0: d = STR (s); break;
    case 1: d = iot_data_alloc_binary (n ? s : NULL, n, IOT_DATA_COPY); break;
    case 2: d = iot_data_alloc_array (n ? s : NULL, n, IOT_DATA_UINT8, IOT_DATA_COPY); if (n > 2600) symx_prune (); break;
    case 3: d = iot_data_alloc_vector (n); for (unsigned i = 0; i < n; i++) if (i & 1) iot_data_vector_add (d, i, iot_data_alloc_ui8 ((uint8_t) s[i])); break;
    default: d = iot_data_alloc_map (IOT_DATA_UINT32); for (unsigned i = 0; i < n; i++) iot_data_map_add (d, iot_data_alloc_ui32 (i), iot_data_alloc_bool (i & 1)); break;
  }
  c = out (d);
  switch (what)
  {
    case 0: rd_bytes (3, s, n); break;
    case 1: rd_bytes (2, s, n); break;
    case 2: rd_count (4, n); for (unsigned i = 0; i < n; i++) { num_t x; x.u64 = (uint8_t) s[i]; rd_num (IOT_DATA_UINT8, x); } break;
    case 3: rd_count (4, n); for (unsigned i = 0; i < n; i++) { num_t x; x.u64 = (uint8_t) s[i]; if (i & 1) rd_num (IOT_DATA_UINT8, x); else rd_null (); } break;
    default: rd_count (5, n); for (unsigned i = 0; i < n; i++) { num_t x; x.u64 = i; rd_num (IOT_DATA_UINT32, x); x.u64 = i & 1; rd_num (IOT_DATA_BOOL, x); } break;
  }
  free (s);
#else            // nested values
  val_t * v = v_gen (KINDS, INNER, MAXN);
  d = v_make (v); c = out (d);
  rd (v);
  if (symx_choice ("pointer", 2)) { iot_data_free (c); iot_data_free (d); static int x; d = iot_data_alloc_vector (1); iot_data_vector_add (d, 0, iot_data_alloc_pointer (&x, NULL)); c = out (d); rd_count (4, 1); rd_null (); }
#endif
  CHECK (left == 0, "nothing follows the value");
  iot_data_free (c); iot_data_free (d);
  symx_cover ("end");
  LIVE_END ("no leak");
}
