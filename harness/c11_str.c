// C11: text and binary values hold exactly the bytes given, whatever their length and ownership
#include "h.h"
int main (void)
{
  LIVE0;
#if MODE == 0
  unsigned n = (unsigned) symx_choice ("len", MAXLEN + 1);
  char * s = malloc (n + 1); for (unsigned i = 0; i < n; i++) s[i] = (char) (1 + (i * 7) % 250);
  // symbolic bytes at the ends and in the middle
  if (n) { unsigned pos[3] = { 0, n / 2, n - 1 }; for (int k = 0; k < 3; k++) { s[pos[k]] = (char) IN_U8 ("c"); ASSUME (s[pos[k]] != 0); } }
  s[n] = 0;
  char * orig = strdup (s); unsigned own = (unsigned) symx_choice ("own", 3);
  iot_data_t * d = iot_data_alloc_string (s, (iot_data_ownership_t) own);
  if (own == IOT_DATA_COPY) { memset (s, 'Z', n); free (s); s = NULL; } else CHECK (iot_data_string (d) == s, "taken or referenced text is used in place");
  CHECK (strcmp (iot_data_string (d), orig) == 0, "text is kept");
  iot_data_t * c = iot_data_copy (d); iot_data_free (d);
  if (own == IOT_DATA_COPY || own == IOT_DATA_TAKE) CHECK (strcmp (iot_data_string (c), orig) == 0, "copy outlives the original");
  iot_data_t * b = iot_data_binary_from_string (c);
  CHECK (iot_data_type (b) == IOT_DATA_BINARY && iot_data_array_length (b) == n && (n == 0 || memcmp (iot_data_address (b), orig, n) == 0), "text to binary");
  iot_data_t * t = n ? iot_data_string_from_binary (b) : NULL;
  if (t) CHECK (strcmp (iot_data_string (t), orig) == 0 && iot_data_equal (t, c), "binary to text and back");
  iot_data_static_t cs; iot_data_t * k = iot_data_alloc_const_string (&cs, orig);
  CHECK (iot_data_is_static (k) && iot_data_equal (k, c) && iot_data_string (k) == orig, "constant text equals copied text");
  iot_data_free (k); iot_data_free (t); iot_data_free (b); iot_data_free (c); free (orig);
  if (own == IOT_DATA_REF) free (s);
#elif MODE == 1
  unsigned n = (unsigned) symx_choice ("len", 4); iot_data_type_t et = TY; unsigned sz = num_size[et] * n;
  uint8_t * raw = malloc (sz ? sz : 1); symx_bytes ("raw", raw, sz); uint8_t orig[32]; memcpy (orig, raw, sz);
  unsigned own = (unsigned) symx_choice ("own", 3); bool bin = et == IOT_DATA_UINT8 && symx_choice ("binary", 2);
  iot_data_t * d = bin ? iot_data_alloc_binary (n ? raw : NULL, n, (iot_data_ownership_t) own) : iot_data_alloc_array (n ? raw : NULL, n, et, (iot_data_ownership_t) own);
  if (own == IOT_DATA_COPY) memset (raw, 0xa5, sz);
  CHECK (iot_data_type (d) == (bin ? IOT_DATA_BINARY : IOT_DATA_ARRAY) && iot_data_array_length (d) == n && iot_data_array_size (d) == sz && iot_data_array_type (d) == et, "type and size");
  CHECK (n == 0 || memcmp (iot_data_address (d), orig, sz) == 0, "content");
  if (et == IOT_DATA_UINT8) { if (bin) iot_data_binary_to_array (d); else iot_data_array_to_binary (d); CHECK (iot_data_type (d) == (bin ? IOT_DATA_ARRAY : IOT_DATA_BINARY) && iot_data_array_length (d) == n && (n == 0 || memcmp (iot_data_address (d), orig, sz) == 0), "relabelling keeps the content"); }
  bool share = symx_choice ("share", 2); iot_data_t * ref = share ? iot_data_add_ref (d) : NULL;
  uint32_t l = 99; uint8_t * p = iot_data_binary_take (d, &l);
  CHECK (l == sz, "taken size in bytes"); for (unsigned i = 0; i < sz; i++) CHECK (p[i] == orig[i], "taken content");
  if (own == IOT_DATA_REF || share) CHECK (iot_data_array_length (d) == n && (n == 0 || memcmp (iot_data_address (d), orig, sz) == 0), "shared or referenced data keep their content when taken");
  else CHECK (iot_data_array_length (d) == 0, "data are empty after the take");
  for (unsigned i = 0; i < sz; i++) p[i] ^= 0xff;
  if (own == IOT_DATA_REF || share) CHECK (n == 0 || memcmp (iot_data_address (d), orig, sz) == 0, "taken memory is the caller's own");
  free (p); iot_data_free (ref); iot_data_free (d);
  if (own != IOT_DATA_TAKE || n == 0) free (raw);
#elif MODE == 3   // formatted text: the result has the length and the content the format asks for, however long
  static const unsigned band[] = { 0, 32, 64, 128, 256, 512, 1024, 2048, 4096 };
  unsigned n = band[symx_choice ("band", NBAND)] + (unsigned) symx_choice ("off", SPAN); n = n < 2 ? 0 : n - 2;
  char * s = malloc (n + 4); memset (s, 'q', n); if (n) { s[0] = (char) IN_U8 ("c0"); s[n - 1] = (char) IN_U8 ("c1"); ASSUME (s[0] && s[n - 1]); } s[n] = 0;
  uint16_t v = IN_U16 ("v"); ASSUME (v < 1000);
  iot_data_t * d = iot_data_alloc_string_fmt ("%s%u", s, v), * e = iot_data_alloc_string_fmt ("%s", s);
  CHECK (iot_data_type (d) == IOT_DATA_STRING && iot_data_type (e) == IOT_DATA_STRING && strcmp (iot_data_string (e), s) == 0, "formatted text is complete");
  unsigned k = v > 99 ? 3 : v > 9 ? 2 : 1; const char * r = iot_data_string (d) + n;
  CHECK (strlen (iot_data_string (d)) == n + k && memcmp (iot_data_string (d), s, n) == 0 && (k < 3 || r[k - 3] == (char) ('0' + v / 100)) && (k < 2 || r[k - 2] == (char) ('0' + v / 10 % 10)) && r[k - 1] == (char) ('0' + v % 10), "formatted text and number are complete");
  free (s); iot_data_free (d); iot_data_free (e);
#else   // typed construction from text
  int64_t v = (int64_t) symx_input ("v", BITS); if (SGN) v = (int64_t) ((uint64_t) v << (64 - BITS)) >> (64 - BITS);
  char t[32]; char * q = t; uint64_t a = v < 0 && SGN ? 0 - (uint64_t) v : (uint64_t) v; if (SGN && v < 0) *q++ = '-';
  char tmp[24]; int k = 0; do { tmp[k++] = (char) ('0' + a % 10); a /= 10; } while (a); while (k) *q++ = tmp[--k]; *q = 0;
  iot_data_t * d = iot_data_alloc_from_string (TY, t);
  num_t x; CHECK (d && iot_data_type (d) == TY && iot_data_cast (d, TY, &x), "decimal text of a value in range gives that value");
  num_t e; memcpy (e.raw, &v, 8); CHECK (num_same (TY, x, e), "parsed value");
  iot_data_t * d2 = iot_data_alloc_from_strings (iot_data_type_string (TY), t); CHECK (iot_data_equal (d, d2), "by type name"); iot_data_free (d2);
  CHECK (iot_data_alloc_from_string (TY, "x1") == NULL, "text that is no number gives nothing");
  iot_data_free (d);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
