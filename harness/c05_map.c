// C05: a map behaves as a sorted dictionary under every sequence of operations
#include "h.h"
#ifndef N
#define N 3
#endif
#ifndef KN
#define KN 4
#endif
// model: present/val per key value 0..KN-1 (numeric or single character keys)
static int m[KN];
#if KT == 0
static iot_data_t * mk (unsigned k) { return iot_data_alloc_ui8 ((uint8_t) k); }
static unsigned rd (const iot_data_t * d) { return iot_data_ui8 (d); }
#define KTYPE IOT_DATA_UINT8
#elif KT == 1
static iot_data_t * mk (unsigned k) { char s[2] = { (char) ('a' + k), 0 }; return iot_data_alloc_string (s, IOT_DATA_COPY); }
static unsigned rd (const iot_data_t * d) { return (unsigned) (iot_data_string (d)[0] - 'a'); }
#define KTYPE IOT_DATA_STRING
#else
// mixed key types: key k is an i8, u16, string or bool; order follows the type order
static iot_data_t * mk (unsigned k) { switch (k) { case 0: return iot_data_alloc_i8 (7); case 1: return iot_data_alloc_ui16 (7); case 2: return iot_data_alloc_bool (true); default: return iot_data_alloc_string ("x", IOT_DATA_COPY); } }
static unsigned rd (const iot_data_t * d) { switch (iot_data_type (d)) { case IOT_DATA_INT8: return 0; case IOT_DATA_UINT16: return 1; case IOT_DATA_BOOL: return 2; default: return 3; } }
#define KTYPE IOT_DATA_MULTI
#endif
static void audit (iot_data_t * map)
{
  unsigned n = 0; int lo = -1, hi = -1; unsigned keys[KN];
  for (unsigned i = 0; i < KN; i++) if (m[i] >= 0) { if (lo < 0) lo = (int) i; hi = (int) i; keys[n++] = i; }
  CHECK (iot_data_map_size (map) == n, "size is the number of keys");
  CHECK (iot_data_length (map) == n, "length is the number of keys");
  iot_data_map_iter_t it; iot_data_map_iter (map, &it);
  for (unsigned i = 0; i < n; i++)
  {
    CHECK (iot_data_map_iter_has_next (&it), "has_next before an element");
    CHECK (iot_data_map_iter_next (&it), "iteration reaches every element");
    CHECK (rd (iot_data_map_iter_key (&it)) == keys[i], "iteration visits keys in ascending order");
    CHECK (iot_data_ui8 (iot_data_map_iter_value (&it)) == m[keys[i]], "iteration value");
  }
  if (n) CHECK (!iot_data_map_iter_has_next (&it), "no next at the last element");
  CHECK (!iot_data_map_iter_next (&it), "iteration ends");
  CHECK (iot_data_map_iter_key (&it) == NULL && iot_data_map_iter_value (&it) == NULL, "no value past the end");
  iot_data_map_iter (map, &it);
  for (unsigned i = n; i-- > 0;)
  {
    CHECK (iot_data_map_iter_prev (&it), "reverse iteration reaches every element");
    CHECK (rd (iot_data_map_iter_key (&it)) == keys[i], "reverse iteration visits keys in descending order");
    CHECK (iot_data_ui8 (iot_data_map_iter_value (&it)) == m[keys[i]], "reverse iteration value");
    CHECK (iot_data_map_iter_has_next (&it) == (i + 1 < n), "has_next while moving backwards");
  }
  CHECK (!iot_data_map_iter_prev (&it), "reverse iteration ends");
  const iot_data_t * s = iot_data_map_start (map), * e = iot_data_map_end (map);
  CHECK ((s != NULL) == (n > 0) && (e != NULL) == (n > 0), "start and end exist exactly for a non empty map");
  if (n) CHECK (iot_data_ui8 (s) == m[lo] && iot_data_ui8 (e) == m[hi], "start and end are the values of the lowest and highest keys");
  if (n == KN) symx_cover ("full");
  if (n == 0) symx_cover ("empty");
}
int main (void)
{
  LIVE0;
  iot_data_t * map = iot_data_alloc_map (KTYPE);
  for (unsigned i = 0; i < KN; i++) m[i] = -1;
#ifdef PRE   // start from a full map built in a chosen order
  { unsigned done = 0; for (unsigned i = 0; i < PRE; i++) { unsigned k = (i * PSTEP + POFF) % PRE; if (!(done & (1u << k))) { done |= 1u << k; m[k] = (int) (10 + k); iot_data_map_add (map, mk (k), iot_data_alloc_ui8 ((uint8_t) (10 + k))); } } }
#endif
  for (int i = 0; i < N; i++)
  {
    unsigned k = (unsigned) symx_choice ("k", KN);
    uint8_t v = IN_U8 ("v");
#ifdef RMONLY
    unsigned op = 1; ASSUME (m[k] >= 0);
#else
    unsigned op = (unsigned) symx_choice ("op", OPS);
#endif
    switch (op)
    {
      case 0: iot_data_map_add (map, mk (k), iot_data_alloc_ui8 (v)); m[k] = v; break;
      case 1: { iot_data_t * kd = mk (k); bool r = iot_data_map_remove (map, kd); CHECK (r == (m[k] >= 0), "remove reports whether the key was present"); iot_data_free (kd); m[k] = -1; break; }
      case 2: { iot_data_t * kd = mk (k), * vd = iot_data_alloc_ui8 (v); bool r = iot_data_map_add_unused (map, kd, vd); CHECK (r == (m[k] < 0), "add_unused adds only absent keys"); if (r) m[k] = v; else { iot_data_free (kd); iot_data_free (vd); } break; }
      case 3: { iot_data_t * o = iot_data_alloc_map (KTYPE); unsigned k2 = (unsigned) symx_choice ("k2", KN); iot_data_map_add (o, mk (k), iot_data_alloc_ui8 (v)); iot_data_map_add (o, mk (k2), iot_data_alloc_ui8 (9)); iot_data_map_merge (map, o); iot_data_map_merge (map, NULL); iot_data_free (o); m[k] = v; m[k2] = 9; break; }
      default: iot_data_map_empty (map); for (unsigned j = 0; j < KN; j++) m[j] = -1; break;
    }
    iot_data_t * q = mk (k); const iot_data_t * g = iot_data_map_get (map, q); iot_data_free (q);
    CHECK ((g != NULL) == (m[k] >= 0) && (!g || iot_data_ui8 (g) == m[k]), "lookup after operation");
  }
  audit (map);
#ifdef READD       // what was removed is added again
  for (unsigned k = 0; k < KN; k++) if (m[k] < 0) { m[k] = (int) (50 + k); iot_data_map_add (map, mk (k), iot_data_alloc_ui8 ((uint8_t) (50 + k))); }
  audit (map);
#endif
  for (unsigned k = 0; k < KN; k++)
  {
    iot_data_t * q = mk (k); const iot_data_t * g = iot_data_map_get (map, q);
    CHECK ((g != NULL) == (m[k] >= 0), "lookup finds exactly the present keys");
    if (g) { symx_log (iot_data_ui8 (g)); CHECK (iot_data_ui8 (g) == m[k], "lookup value is the last one added"); CHECK (iot_data_map_get_typed (map, q, IOT_DATA_UINT8) == g && iot_data_map_get_typed (map, q, IOT_DATA_INT8) == NULL, "typed lookup"); }
    iot_data_free (q);
  }
  symx_cover ("end");
  iot_data_free (map);
  LIVE_END ("no leak");
}
