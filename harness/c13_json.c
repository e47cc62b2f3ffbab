// Parsing JSON text
#include "h.h"
#include "iot/json.h"
#include <stdio.h>
#ifndef N
#define N 4
#endif
#ifndef STRK
#define STRK 1
#define LEAN 1
#define DEPTH 1
#endif
static char doc[160]; static unsigned dn; static bool ws;
static void put (const char * s) { while (*s) doc[dn++] = *s++; doc[dn] = 0; }
static void putc1 (char c) { doc[dn++] = c; doc[dn] = 0; }
static void sp (void) { if (ws) put (" \n"); }
static unsigned nkeys;
static bool in (const char * s, char c) { return c && strchr (s, c); }
// valid text and, independently, the value it denotes
static iot_data_t * gen_str (bool key)
{
  char t[8]; unsigned n = 0; putc1 ('"');
  unsigned k = (unsigned) symx_choice ("string", key ? 2 : STRK);
  switch (k)
  {
    case 0: break;
    case 1: if (key && LEAN && (HOW > 1 || nkeys++)) { t[n] = "kj\xc3~"[symx_choice ("key", HOW > 1 ? 4 : 1)]; putc1 (t[n++]); break; } t[n] = (char) symx_input ("ch", 8); ASSUME ((uint8_t) t[n] >= 32 && t[n] != '"' && t[n] != '\\'); putc1 (t[n++]); break;
    case 2: { static const char * e = "\"\\/bfnrt", * v = "\"\\/\b\f\n\r\t"; unsigned i = (unsigned) symx_choice ("escape", 8); put ("x\\"); putc1 (e[i]); putc1 ('y'); t[n++] = 'x'; t[n++] = v[i]; t[n++] = 'y'; break; }
    case 3:
    {
      unsigned c = 0; put ("\\u");
      const char * top = (const char * const []) { "00", "07", "08", "20", "d7", "E0", "fF" }[symx_choice ("hex", 7)];
      for (int i = 0; i < 4; i++)
      {
        char h = i < 2 ? top[i] : (char) symx_input ("hex", 8); ASSUME ((h >= '0' && h <= '9') || (h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F'));
        putc1 (h); c = c * 16 + (unsigned) (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
      }
      ASSUME (c != 0 && (c < 0xd800 || c > 0xdfff));
      if (c < 0x80) t[n++] = (char) c; else if (c < 0x800) { t[n++] = (char) (0xc0 | (c >> 6)); t[n++] = (char) (0x80 | (c & 63)); } else { t[n++] = (char) (0xe0 | (c >> 12)); t[n++] = (char) (0x80 | ((c >> 6) & 63)); t[n++] = (char) (0x80 | (c & 63)); }
      break;
    }
    default: { unsigned a = (unsigned) symx_choice ("high", 3), b = (unsigned) symx_choice ("low", 3); static const unsigned hi[] = { 0xd800, 0xd83d, 0xdbff }, lo[] = { 0xdc00, 0xde00, 0xdfff }; char x[16]; snprintf (x, sizeof (x), "\\u%04x\\u%04X", hi[a], lo[b]); put (x);
      unsigned c = 0x10000 + ((hi[a] - 0xd800) << 10) + (lo[b] - 0xdc00); t[n++] = (char) (0xf0 | (c >> 18)); t[n++] = (char) (0x80 | ((c >> 12) & 63)); t[n++] = (char) (0x80 | ((c >> 6) & 63)); t[n++] = (char) (0x80 | (c & 63)); }
  }
  t[n] = 0; putc1 ('"');
  return iot_data_alloc_string (t, IOT_DATA_COPY);
}
static iot_data_t * gen_num (void)
{
  static const char * big[] = { "92233720368547758", "184467440737095516", "1844674407370955161", "" };
  bool neg = symx_choice ("negative", 2); unsigned b = (unsigned) symx_choice ("prefix", neg ? 1 : 4), k = 1 + (unsigned) symx_choice ("digits", b == 2 ? 1 : 2); uint64_t v = 0;
  if (neg) { putc1 ('-'); if (symx_choice ("big", 2)) { put (big[0]); v = 92233720368547758u; } } else { put (big[b]); for (const char * p = big[b]; *p; p++) v = v * 10 + (uint64_t) (*p - '0'); }
  for (unsigned i = 0; i < k; i++) { char d = (char) symx_input ("digit", 8); ASSUME (d >= '0' && d <= '9'); if (i == 0 && v == 0 && k > 1) ASSUME (d != '0'); putc1 (d); uint64_t w = v * 10 + (uint64_t) (d - '0'); if (v > 1844674407370955161u || (v == 1844674407370955161u && d > '5')) symx_prune (); v = w; }
  if (neg) { ASSUME (v <= 0x8000000000000000u); return iot_data_alloc_i64 ((int64_t) (0 - v)); }
  return v <= INT64_MAX ? iot_data_alloc_i64 ((int64_t) v) : iot_data_alloc_ui64 (v);
}
static iot_data_t * gen (unsigned depth)
{
  unsigned k = (unsigned) symx_choice ("kind", depth ? 7 : 5); iot_data_t * r;
  sp ();
  switch (k)
  {
    case 0: r = LEAN && depth < DEPTH ? (put ("7"), iot_data_alloc_i64 (7)) : gen_num (); break;
    case 1: { static const char * f[] = { "1.5", "-0.25e1", "1E3", "12e-2" }; static const double v[] = { 1.5, -2.5, 1000, 0.12 }; unsigned i = (unsigned) symx_choice ("float", LEAN ? 1 : 4); put (f[i]); r = iot_data_alloc_f64 (v[i]); break; }
    case 2: { unsigned i = (unsigned) symx_choice ("bool", 2); put (i ? "true" : "false"); r = iot_data_alloc_bool (i); break; }
    case 3: put ("null"); r = iot_data_alloc_null (); break;
    case 4: r = LEAN && depth < DEPTH ? (put ("\"q\""), STR ("q")) : gen_str (false); break;
    case 5:
    {
      unsigned n = (unsigned) symx_choice ("elements", 3); r = iot_data_alloc_vector (n); putc1 ('['); if (!n) sp ();
      for (unsigned i = 0; i < n; i++) { if (i) putc1 (','); iot_data_vector_add (r, i, gen (depth - 1)); }
      putc1 (']'); break;
    }
    default:
    {
      unsigned n = (unsigned) symx_choice ("members", 3); r = iot_data_alloc_map (IOT_DATA_STRING); putc1 ('{'); if (!n) sp ();
      for (unsigned i = 0; i < n; i++) { if (i) putc1 (','); sp (); iot_data_t * key = gen_str (true); sp (); putc1 (':'); iot_data_t * v = gen (depth - 1); iot_data_map_add (r, key, v); }
      putc1 ('}');
    }
  }
  sp ();
  return r;
}
#if MODE == 0     // the value of a fraction is immaterial here
double sx_strtod (const char * s, char ** e) { (void) s; (void) e; return 1.5; }
#endif
int main (void)
{
  LIVE0;
  iot_data_t * cache = NULL;
#if MODE == 0    // any text at all
  char * t = malloc (N + 1); symx_bytes ("text", t, N); t[N] = 0;
#ifdef ALPHA
  for (int i = 0; i < N; i++) ASSUME (t[i] == 0 || in (ALPHA, t[i]));
#endif
  (void) in; (void) gen; (void) ws;
#ifdef PREFIX
  { char * u = malloc (sizeof (PREFIX) + N + sizeof (SUFFIX)); strcpy (u, PREFIX); strcat (u, t); strcat (u, SUFFIX); free (t); t = u; }
#endif
  unsigned how = (unsigned) symx_choice ("how", HOW);
  if (how == 2) cache = iot_data_alloc_map (IOT_DATA_STRING);
  iot_data_t * d = how == 0 ? iot_data_from_json (t) : iot_data_from_json_with_cache (t, how == 1, cache);
  CHECK (d != NULL, "always yields a datum");
  char * j = iot_data_to_json (d);
  if (iot_data_type (d) != IOT_DATA_NULL) symx_cover ("value");
  iot_data_t * e = iot_data_from_json_with_ordering (j, how == 1);
  CHECK (iot_data_equal (d, e), "what is written parses to the same value");
  free (j); iot_data_free (e); iot_data_free (d); free (t);
#elif MODE == 2  // the tokeniser: any text, any number of tokens
  (void) gen; (void) ws; (void) in;
  enum { L = sizeof (PREFIX) - 1 + N };
  char * t = malloc (L); memcpy (t, PREFIX, sizeof (PREFIX) - 1); symx_bytes ("text", t + sizeof (PREFIX) - 1, N);   // not terminated
#ifdef ALPHA
  for (int i = 0; i < N; i++) ASSUME (t[sizeof (PREFIX) - 1 + i] == 0 || in (ALPHA, t[sizeof (PREFIX) - 1 + i]));
#endif
  unsigned used = L;
  for (unsigned i = 0; i < L; i++) if (!t[i]) { used = i; break; }
  iot_json_parser p; iot_json_tok_t big[L + 1];
  iot_json_init (&p); int all = iot_json_parse (&p, t, L, big, L + 1);
  CHECK (all >= 0 || all == IOT_JSON_ERROR_INVAL || all == IOT_JSON_ERROR_PART, "with a token for every character there are enough");
  iot_json_init (&p); int count = iot_json_parse (&p, t, L, NULL, 0);
  if (all >= 0)
  {
    CHECK (count == all, "counting gives the number of tokens");
    uint32_t kids[L + 1]; memset (kids, 0, sizeof (kids));
    for (int i = 0; i < all; i++)
    {
      iot_json_tok_t * k = &big[i];
      CHECK (k->type >= IOT_JSON_OBJECT && k->type <= IOT_JSON_PRIMITIVE && k->start >= 0 && k->end >= k->start && (unsigned) k->end <= used, "every token lies within the text");
      CHECK (k->parent >= -1 && k->parent < i, "a token's parent precedes it");
      if (k->parent >= 0) kids[k->parent]++;
      if (k->type == IOT_JSON_OBJECT) CHECK (t[k->start] == '{' && t[k->end - 1] == '}' && k->end > k->start + 1, "an object spans its braces");
      if (k->type == IOT_JSON_ARRAY) CHECK (t[k->start] == '[' && t[k->end - 1] == ']' && k->end > k->start + 1, "an array spans its brackets");
      if (k->type == IOT_JSON_STRING || k->type == IOT_JSON_STRING_ESC)
      {
        CHECK (k->start > 0 && t[k->start - 1] == '"' && t[k->end] == '"', "a string lies between its quotes");
        bool esc = false; for (int c = k->start; c < k->end; c++) esc |= t[c] == '\\';
        CHECK (esc == (k->type == IOT_JSON_STRING_ESC), "a string with escapes is known as such");
      }
      if (k->type == IOT_JSON_PRIMITIVE) for (int c = k->start; c < k->end; c++) CHECK (t[c] > 32 && t[c] < 127, "a primitive is printable");
    }
    for (int i = 0; i < all; i++) CHECK (big[i].size == kids[i], "the size of a token is the number of tokens in it");
    symx_cover ("parsed");
  }
  unsigned few = (unsigned) symx_choice ("few", 3);
  iot_json_tok_t * tok = malloc ((few ? few : 1) * sizeof (*tok));
  iot_json_init (&p); int r = iot_json_parse (&p, t, L, tok, few);
  CHECK (r <= (int) few, "never more tokens than given");
  if (all > (int) few) CHECK (r == IOT_JSON_ERROR_NOMEM, "too few tokens are reported");
  if (all >= 0 && all <= (int) few) CHECK (r == all && memcmp (tok, big, (size_t) all * sizeof (*tok)) == 0, "the same tokens");
  if (r == IOT_JSON_ERROR_NOMEM)   // resumed with more tokens
  {
    iot_json_tok_t more[L + 1]; memcpy (more, tok, few * sizeof (*tok));
    r = iot_json_parse (&p, t, L, more, L + 1);
    CHECK (r == all, "parsing can be continued with more tokens");
    if (all >= 0) { symx_cover ("resumed"); CHECK (memcmp (more, big, (size_t) all * sizeof (*tok)) == 0, "continuing gives the same tokens"); }
  }
  free (tok); free (t);
#else            // valid documents
  ws = symx_choice ("space", 2);
  unsigned how = (unsigned) symx_choice ("how", HOW);
  iot_data_t * want = gen (DEPTH);
  if (how == 2) cache = iot_data_alloc_map (IOT_DATA_STRING);
  iot_data_t * d = how == 0 ? iot_data_from_json (doc) : iot_data_from_json_with_cache (doc, how == 1, cache);
  CHECK (iot_data_equal (d, want) && iot_data_equal (want, d), "a valid document yields the value it denotes");
  if (how == 1 && iot_data_type (d) == IOT_DATA_MAP)
  {
    char * j = iot_data_to_json (d); iot_data_t * e = iot_data_from_json (j); CHECK (iot_data_equal (e, want), "ordered text has the same value"); iot_data_free (e);
    if (!ws && !strchr (doc, '\\') && !strchr (doc, '.') && !strchr (doc, 'e') && !strchr (doc, 'E') && !strchr (doc, 127) && iot_data_map_size (d) == 2) CHECK (strcmp (j, doc) == 0, "members are written in the order they were read");
    free (j);
  }
#if CUT
  unsigned cut = (unsigned) symx_choice ("cut", 12);
  if (cut >= dn || !in ("{[\"", doc[0])) symx_prune ();
  doc[cut] = 0; iot_data_t * p = iot_data_from_json (doc);
  CHECK (iot_data_type (p) == IOT_DATA_NULL, "incomplete text yields null"); iot_data_free (p);
#endif
  iot_data_free (d); iot_data_free (want);
#endif
  iot_data_free (cache);
  symx_cover ("end");
  LIVE_END ("no leak");
}
