// C05: maps with arbitrary keys: every text, number or bytes, of one type or several
#include "val.h"
static int cmp (const val_t * a, const val_t * b)
{
  if (a->type != b->type) return a->type < b->type ? -1 : 1;
  switch (a->type)
  {
    case IOT_DATA_STRING:
      for (unsigned i = 0;; i++)
      {
        if (i == a->len || i == b->len) return a->len == b->len ? 0 : a->len < b->len ? -1 : 1;
        if (a->s[i] != b->s[i]) return (uint8_t) a->s[i] < (uint8_t) b->s[i] ? -1 : 1;
      }
    case IOT_DATA_FLOAT32: return a->n.f32 < b->n.f32 ? -1 : a->n.f32 > b->n.f32;
    case IOT_DATA_FLOAT64: return a->n.f64 < b->n.f64 ? -1 : a->n.f64 > b->n.f64;
    case IOT_DATA_BINARY: return 2;   // any consistent order
    default: { int_t x = int_of (a->type, a->n), y = int_of (b->type, b->n); if (x.neg != y.neg) return x.neg ? -1 : 1; return x.v < y.v ? -1 : x.v > y.v; }
  }
}
static val_t * k[4]; static int val[4]; static unsigned n;   // present keys
static int at (const val_t * v) { for (unsigned i = 0; i < n; i++) if (v_eq (k[i], v)) return (int) i; return -1; }
static void put (val_t * v, int x) { int i = at (v); if (i < 0) { i = (int) n++; k[i] = v; } val[i] = x; }
int main (void)
{
  LIVE0;
  iot_data_t * map = iot_data_alloc_map (MULTI ? IOT_DATA_MULTI : MTYPE);
  val_t * g[3]; for (int i = 0; i < 3; i++) g[i] = v_gen (KINDS, 0, 0);
  for (int i = 0; i < 2; i++) { iot_data_map_add (map, v_make (g[i]), iot_data_alloc_ui8 ((uint8_t) (i + 1))); put (g[i], i + 1); }
  if (symx_choice ("hash", 2)) iot_data_hash (map);
  iot_data_t * key = v_make (g[2]); int was = at (g[2]);
  switch (symx_choice ("op", 4))
  {
    case 0: iot_data_map_add (map, iot_data_add_ref (key), iot_data_alloc_ui8 (3)); put (g[2], 3); break;
    case 1: { iot_data_t * v = iot_data_alloc_ui8 (3), * r = iot_data_add_ref (key); bool ok = iot_data_map_add_unused (map, r, v); CHECK (ok == (was < 0), "added only when unused"); if (ok) put (g[2], 3); else { iot_data_free (v); iot_data_free (r); } break; }
    case 2: CHECK (iot_data_map_remove (map, key) == (was >= 0), "removed exactly when present"); if (was >= 0) { n--; k[was] = k[n]; val[was] = val[n]; symx_cover ("removed"); } break;
    default: break;
  }
  CHECK (iot_data_map_size (map) == n, "as many entries as different keys");
  for (int i = 0; i < 3; i++)
  {
    int w = at (g[i]); iot_data_t * l = v_make (g[i]); const iot_data_t * r = iot_data_map_get (map, l);
    CHECK ((r != NULL) == (w >= 0), "a key is found exactly when present"); if (r) CHECK (iot_data_ui8 (r) == val[w], "with its own value");
    if (g[i]->type == IOT_DATA_STRING) CHECK (iot_data_string_map_get (map, g[i]->s) == r, "by text");
    iot_data_free (l);
  }
  iot_data_map_iter_t it; iot_data_map_iter (map, &it); val_t * last = NULL;
  for (unsigned i = 0; i < n; i++)
  {
    CHECK (iot_data_map_iter_next (&it), "iteration reaches every entry");
    int w = -1;
    for (unsigned j = 0; j < n; j++) { iot_data_t * l = v_make (k[j]); if (iot_data_equal (l, iot_data_map_iter_key (&it))) { CHECK (w < 0, "keys differ"); w = (int) j; } iot_data_free (l); }
    CHECK (w >= 0 && iot_data_ui8 (iot_data_map_iter_value (&it)) == val[w], "entry of the iteration");
    if (last) { int o = cmp (last, k[w]); CHECK (o < 0 || o == 2, "keys in ascending order"); } last = k[w];
  }
  CHECK (!iot_data_map_iter_next (&it), "iteration ends");
  iot_data_free (key); iot_data_free (map);
  symx_cover (n == 3 ? "three" : n == 2 ? "two" : n == 1 ? "one" : "none");
  symx_cover ("end");
  LIVE_END ("no leak");
}
