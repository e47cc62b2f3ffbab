// Writing data as JSON text
#include "val.h"
#include <math.h>
static char * out (const iot_data_t * d, unsigned how)
{
  switch (how)
  {
    case 0: return iot_data_to_json (d);
    case 1: return iot_data_to_json_with_size (d, 1);
    case 2: return iot_data_to_json_with_buffer (d, malloc (7), 7);
    default: return iot_data_to_json_with_size (d, how - 1);
  }
}
// independent reader of one JSON string token: number of bytes decoded, or -1
static int unquote (const char * j, char * t, unsigned * used)
{
  const char * p = j; int n = 0;
  if (*p++ != '"') return -1;
  while (*p != '"')
  {
    if ((uint8_t) *p < 0x20) return -1;
    if (*p != '\\') { t[n++] = *p++; continue; }
    p++;
    switch (*p++)
    {
      case 'b': t[n++] = '\b'; break;
      case 'f': t[n++] = '\f'; break;
      case 'n': t[n++] = '\n'; break;
      case 'r': t[n++] = '\r'; break;
      case 't': t[n++] = '\t'; break;
      case '"': t[n++] = '"'; break;
      case '\\': t[n++] = '\\'; break;
      case '/': t[n++] = '/'; break;
      case 'u':
      {
        unsigned c = 0;
        for (int i = 0; i < 4; i++) { char h = *p++; if (h >= '0' && h <= '9') c = c * 16 + (unsigned) (h - '0'); else if (h >= 'a' && h <= 'f') c = c * 16 + (unsigned) (h - 'a' + 10); else if (h >= 'A' && h <= 'F') c = c * 16 + (unsigned) (h - 'A' + 10); else return -1; }
        if (c >= 0x80) return -1;
        t[n++] = (char) c; break;
      }
      default: return -1;
    }
  }
  *used = (unsigned) (p + 1 - j);
  return n;
}
#if MODE == 0
static void is_str (const char * j, const char * s, unsigned n, unsigned * used)
{
  char t[64]; int k = unquote (j, t, used);
  CHECK (k == (int) n && memcmp (t, s, n) == 0, "text is written as one string denoting exactly its characters");
}
int main (void)
{
  LIVE0;
  char s[N + 1]; unsigned n = (unsigned) symx_choice ("len", N + 1), u = 0;
  symx_bytes ("s", s, n); s[n] = 0; for (unsigned i = 0; i < n; i++) ASSUME (s[i] != 0);
  iot_data_t * d = NULL; unsigned where = (unsigned) symx_choice ("where", 4);
  unsigned how = (unsigned) symx_choice ("buffer", where == 0 ? 8 : 2);
  switch (where)
  {
    case 0: d = STR (s); break;
    case 1: d = iot_data_alloc_vector (2); iot_data_vector_add (d, 0, STR (s)); iot_data_vector_add (d, 1, iot_data_alloc_null ()); break;
    case 2: d = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (d, STR (s), iot_data_alloc_bool (true)); break;
    default: d = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (d, STR ("k"), STR (s)); break;
  }
  char * j = out (d, how);
  switch (where)
  {
    case 0: is_str (j, s, n, &u); CHECK (j[u] == 0, "nothing else is written"); break;
    case 1: CHECK (*j == '[', "array"); is_str (j + 1, s, n, &u); CHECK (strcmp (j + 1 + u, ",null]") == 0, "second element"); break;
    case 2: CHECK (*j == '{', "object"); is_str (j + 1, s, n, &u); CHECK (strcmp (j + 1 + u, ":true}") == 0, "member value"); break;
    default: CHECK (strncmp (j, "{\"k\":", 5) == 0, "object"); is_str (j + 5, s, n, &u); CHECK (strcmp (j + 5 + u, "}") == 0, "end"); break;
  }
  if (how == 0)
  {
    iot_data_t * b = iot_data_from_json (j);
    CHECK (iot_data_equal (b, d), "reads back as equal");
    iot_data_free (b);
  }
  iot_data_free (d); free (j);
  symx_cover ("end");
  LIVE_END ("no leak");
}
#elif MODE == 1
// integers: does j start with exactly the decimal text of v; returns its length
#if BITS <= 16
typedef uint32_t acc_t;
#else
typedef uint64_t acc_t;
#endif
static unsigned is_dec (const char * j, int_t v)
{
  unsigned i = 0; acc_t m = (acc_t) (v.neg ? 0 - v.v : v.v), w = 0;
  if (v.neg) { CHECK (j[0] == '-', "sign of negative number"); i = 1; }
  unsigned s = i;
  while (j[i] >= '0' && j[i] <= '9') { w = w * 10 + (acc_t) (j[i] - '0'); i++; }
  CHECK (i > s && i - s <= 20 && !(j[s] == '0' && i > s + 1), "a decimal number without leading zeros");
  CHECK (w == m, "number text denotes the value");
  return i;
}
static num_t num_any (void)
{
  num_t v; v.u64 = 0;
  if (num_size[TY] <= 2 || is_float_t (TY)) return num_in ("v", TY);
  // wide integers: within 3 of each boundary
  static const uint64_t at[] = { 0, 99999, INT32_MAX, UINT32_MAX, INT64_MAX, 9999999999999999999u };
  unsigned k = (unsigned) symx_choice ("near", 6); uint64_t b = at[k] + (uint64_t) (int64_t) ((int) symx_choice ("offset", 7) - 3);
  if (num_size[TY] == 4) v.u32 = (uint32_t) b; else v.u64 = b;
  return v;
}
static unsigned is_num (const char * j, num_t v)
{
  if (TY == IOT_DATA_BOOL) { const char * t = v.b ? "true" : "false"; CHECK (strncmp (j, t, strlen (t)) == 0, "boolean text"); return (unsigned) strlen (t); }
  if (is_int_t (TY)) return is_dec (j, int_of (TY, v));
  unsigned i = 0; while (j[i] && j[i] != ',' && j[i] != ']') i++;
  char t[40]; CHECK (i > 0 && i < 40, "some text"); memcpy (t, j, i); t[i] = 0;
  double x = TY == IOT_DATA_FLOAT32 ? (double) v.f32 : v.f64;   // 9 digits identify a float
  if (x != x) { CHECK (strcmp (t, "null") == 0, "NaN is null"); return i; }
  char * e; double y = strtod (t, &e); if (TY == IOT_DATA_FLOAT32) y = (float) y;
  CHECK (*e == 0 && (t[0] == '-' || (t[0] >= '0' && t[0] <= '9')), "a JSON number");
  CHECK (y == x && !signbit (y) == !signbit (x), "floating point text denotes exactly the value");
  return i;
}
int main (void)
{
  LIVE0;
  unsigned how = (unsigned) symx_choice ("buffer", 2);
  unsigned shape = (unsigned) symx_choice ("shape", 5), n = shape == 0 ? 1 : shape - 1, i = 0; num_t v[4];
  if (shape == 4) n = 1;
  for (unsigned k = 0; k < n; k++) v[k] = k ? v[0] : num_any ();   // the second element equals the first
  iot_data_t * d = shape == 0 ? num_alloc (TY, v[0]) : NULL;
  if (shape == 4) { d = iot_data_alloc_map (TY); iot_data_map_add (d, num_alloc (TY, v[0]), iot_data_alloc_null ()); }
  else if (shape) { uint8_t raw[32] = { 0 }; for (unsigned k = 0; k < n; k++) memcpy (raw + k * num_size[TY], v[k].raw, num_size[TY]); d = iot_data_alloc_array (n ? raw : NULL, n, TY, IOT_DATA_COPY); }
  char * j = out (d, how);
  if (shape == 0)
  {
    i = is_num (j, v[0]); CHECK (j[i] == 0, "nothing else is written");
    if (is_int_t (TY) && num_size[TY] != 2) { int_t w = int_of (TY, v[0]); iot_data_t * b = iot_data_from_json (j); CHECK (w.neg || w.v <= INT64_MAX ? iot_data_type (b) == IOT_DATA_INT64 && iot_data_i64 (b) == (int64_t) w.v : iot_data_type (b) == IOT_DATA_UINT64 && iot_data_ui64 (b) == w.v, "reads back as the value"); iot_data_free (b); }
  }
  else if (shape == 4)
  {
    CHECK (j[0] == '{' && j[1] == '"', "key is a string");
    if (!is_float_t (TY)) { i = 2 + is_num (j + 2, v[0]); CHECK (strcmp (j + i, "\":null}") == 0, "member with number as key"); }
  }
  else
  {
    CHECK (j[i++] == '[', "array");
    for (unsigned k = 0; k < n; k++) { if (k) CHECK (j[i++] == ',', "elements are separated"); i += is_num (j + i, v[k]); }
    CHECK (j[i] == ']' && j[i + 1] == 0, "end of array");
  }
  iot_data_free (d); free (j);
  symx_cover ("end");
  LIVE_END ("no leak");
}
#else
// the value that the JSON text of v denotes
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static iot_data_t * norm (const val_t * v)
{
  switch (v->type)
  {
    case IOT_DATA_INVALID: case IOT_DATA_NULL: case IOT_DATA_POINTER: return iot_data_alloc_null ();
    case IOT_DATA_STRING: return STR (v->s);
    case IOT_DATA_BINARY:
    {
      char t[5] = ""; uint8_t a = (uint8_t) v->s[0], b = (uint8_t) v->s[1];
      if (v->len) { t[0] = b64[a >> 2]; t[1] = b64[(a & 3) << 4 | (v->len > 1 ? b >> 4 : 0)]; t[2] = v->len > 1 ? b64[(b & 15) << 2] : '='; t[3] = '='; t[4] = 0; }
      return STR (t);
    }
    case IOT_DATA_ARRAY: { iot_data_t * d = iot_data_alloc_vector (v->len); for (unsigned i = 0; i < v->len; i++) iot_data_vector_add (d, i, iot_data_alloc_i64 ((uint8_t) v->s[i])); return d; }
    case IOT_DATA_VECTOR: case IOT_DATA_LIST: { iot_data_t * d = iot_data_alloc_vector (v->cnt); for (unsigned i = 0; i < v->cnt; i++) iot_data_vector_add (d, i, norm (v->el[i])); return d; }
    case IOT_DATA_MAP: { iot_data_t * d = iot_data_alloc_map (IOT_DATA_STRING); for (unsigned i = 0; i < v->cnt; i++) iot_data_map_add (d, STR (v->key[i]->s), norm (v->el[i])); return d; }
    case IOT_DATA_FLOAT32: return iot_data_alloc_f64 ((double) v->n.f32);
    case IOT_DATA_FLOAT64: return iot_data_alloc_f64 (v->n.f64);
    case IOT_DATA_BOOL: return iot_data_alloc_bool (v->n.b);
    default: { int_t i = int_of (v->type, v->n); return (i.neg || i.v <= INT64_MAX) ? iot_data_alloc_i64 ((int64_t) i.v) : iot_data_alloc_ui64 (i.v); }
  }
}
int main (void)
{
  LIVE0;
  val_t * v = v_gen (KINDS, INNER, MAXN);
  iot_data_t * d = v_make (v), * w = norm (v);
  unsigned use = (unsigned) symx_choice ("use", iot_data_type (d) != IOT_DATA_NULL ? 3 : 2), how = use == 1; bool keyed = use == 2;
  if (keyed) // a composite key is the string of its own text
  {
    iot_data_t * m = iot_data_alloc_map (iot_data_type (d)); iot_data_map_add (m, d, iot_data_alloc_ui8 (1));
    char * k = iot_data_to_json (d);
    iot_data_t * x = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (x, iot_data_type (d) == IOT_DATA_STRING || iot_data_type (d) == IOT_DATA_BINARY ? w : STR (k), iot_data_alloc_i64 (1));
    if (!(iot_data_type (d) == IOT_DATA_STRING || iot_data_type (d) == IOT_DATA_BINARY)) iot_data_free (w);
    free (k); d = m; w = x;
  }
  char * j = out (d, how);
  for (char * p = j; *p; p++) CHECK ((uint8_t) *p >= 32, "no raw control characters");
  iot_data_t * b = iot_data_from_json (j);
  CHECK (iot_data_equal (b, w), "the text denotes exactly the value written");
  iot_data_free (b); iot_data_free (w); iot_data_free (d); free (j);
  symx_cover ("end");
  LIVE_END ("no leak");
}
#endif
