// C04: hash and equality of shared data read by several threads at once
#include "h.h"
#include <pthread.h>
static iot_data_t * shared, * fresh; static uint32_t want;
static void * worker (void * a) { (void) a; CHECK (iot_data_equal (shared, fresh) && iot_data_equal (fresh, shared), "equal data are equal from every thread"); CHECK (iot_data_hash (shared) == want, "hash depends only on the content"); return NULL; }
static iot_data_t * build (unsigned kind, uint8_t x, uint8_t y, bool extra)      // with a history that leaves the hash to be calculated later
{
  if (kind == 0)
  {
    iot_data_t * v = iot_data_alloc_vector (extra ? 3 : 2); iot_data_vector_add (v, 0, iot_data_alloc_ui8 (x)); iot_data_vector_add (v, 1, iot_data_alloc_ui8 (y));
    if (extra) { iot_data_vector_add (v, 2, iot_data_alloc_ui8 (7)); iot_data_hash (v); iot_data_vector_resize (v, 2); }
    return v;
  }
  if (kind == 1)
  {
    iot_data_t * l = iot_data_alloc_list (); iot_data_list_tail_push (l, iot_data_alloc_ui8 (x)); iot_data_list_tail_push (l, iot_data_alloc_ui8 (y));
    if (extra) { iot_data_list_tail_push (l, iot_data_alloc_ui8 (7)); iot_data_hash (l); iot_data_free (iot_data_list_tail_pop (l)); }
    return l;
  }
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_UINT8); iot_data_map_add (m, iot_data_alloc_ui8 (1), kind == 3 ? build (0, x, y, extra) : iot_data_alloc_ui8 (x)); iot_data_map_add (m, iot_data_alloc_ui8 (2), iot_data_alloc_ui8 (y));
  if (extra) { iot_data_map_add (m, iot_data_alloc_ui8 (9), iot_data_alloc_ui8 (7)); iot_data_hash (m); iot_data_map_remove (m, fresh); }
  return m;
}
int main (void)
{
  LIVE0; symx_preempt (PRE);
  unsigned kind = (unsigned) symx_choice ("kind", 4); uint8_t x = IN_U8 ("x"), y = IN_U8 ("y");
  fresh = iot_data_alloc_ui8 (9); shared = build (kind, x, y, true); iot_data_free (fresh);
  fresh = build (kind, x, y, false); iot_data_t * other = build (kind, x, y, false); want = iot_data_hash (other); iot_data_free (other);
  pthread_t t[2]; for (int i = 0; i < 2; i++) pthread_create (&t[i], NULL, worker, NULL);
  worker (NULL); for (int i = 0; i < 2; i++) pthread_join (t[i], NULL);
  iot_data_free (shared); iot_data_free (fresh);
  symx_cover ("end");
  LIVE_END ("no leak");
}
