// The block allocator behind all data, built as in a release build
#include "h.h"
#include <pthread.h>
#ifndef PRE
#define PRE 2
#endif
static void (*at_end) (void);
int sx_atexit (void (*fn) (void)) { at_end = fn; return 0; }
static uint32_t size;
static struct { uint8_t * p; uint8_t tag; } blk[128]; static unsigned n;
static bool disjoint (const uint8_t * a, const uint8_t * b) { return (uintptr_t) a + size <= (uintptr_t) b || (uintptr_t) b + size <= (uintptr_t) a; }
static void check_new (uint8_t * p)
{
  CHECK (p != NULL && ((uintptr_t) p & 7) == 0, "a block is aligned");
  for (uint32_t i = 0; i < size; i++) CHECK (p[i] == 0, "a block is cleared");
}
static void check_all (void) { for (unsigned i = 0; i < n; i++) CHECK (blk[i].p[0] == blk[i].tag && blk[i].p[size / 2] == (uint8_t) ~blk[i].tag && blk[i].p[size - 1] == blk[i].tag, "content of a block is kept"); }
static void get (size_t want)
{
  uint8_t * p = iot_data_block_alloc (want);
  if (want > size) { CHECK (p == NULL, "a request for more than a block is refused"); return; }
  check_new (p);
  for (unsigned i = 0; i < n; i++) CHECK (disjoint (p, blk[i].p), "blocks do not overlap");
  uint8_t t = (uint8_t) symx_input ("tag", 8); memset (p, t, size); p[size / 2] = (uint8_t) ~t; blk[n].p = p; blk[n++].tag = t;
}
static void put (unsigned i) { iot_data_block_free (blk[i].p); blk[i] = blk[--n]; }
#if MODE == 1
static struct { uint8_t * p[2]; } th[3]; static unsigned ended;
static void * work (void * a)
{
  unsigned k = (unsigned) (uintptr_t) a; uint8_t t = (uint8_t) (k + 1);
  for (int r = 0; r < 2; r++)
  {
    uint8_t * p = iot_data_block_alloc (size); check_new (p); memset (p, t, size); th[k].p[0] = p;
    if (r == 0) { for (uint32_t i = 0; i < size; i++) CHECK (p[i] == t, "no other thread has the block"); iot_data_block_free (p); }
  }
  return NULL;
}
#endif
int main (void)
{
  size = iot_data_block_size ();
  CHECK (size >= 24 && size % 8 == 0, "block size");
#if MODE == 0
  // FILL blocks in use, so that chunks run out, then every sequence of N requests and releases
  for (unsigned i = 0; i < FILL; i++) { uint8_t * p = iot_data_block_alloc (size); check_new (p); for (unsigned k = 0; k < n; k++) CHECK (disjoint (p, blk[k].p), "blocks do not overlap"); memset (p, (int) i, size); p[size / 2] = (uint8_t) ~i; blk[n].p = p; blk[n++].tag = (uint8_t) i; }
  uint64_t most = symx_live (); unsigned mostn = n;
  for (int s = 0; s < N; s++)
  {
    unsigned k = (unsigned) symx_choice ("op", 4);
    if (k == 0) get (size);
    else if (k == 1) get ((const size_t []) { 0, 1, (size_t) size + 1 }[symx_choice ("size", 3)]);
    else if (!n) symx_prune ();
    else { check_all (); if (k == 2) put (n - 1); else { if (n == 1) symx_prune (); put ((unsigned) symx_choice ("which", n < 4 ? n - 1 : 3)); } }
    if (n <= mostn) CHECK (symx_live () <= most, "released blocks are used again");
    if (n > mostn) mostn = n;
    if (symx_live () > most) most = symx_live ();
  }
  check_all ();
  while (n) put (n - 1);
#elif MODE == 1  // threads
  symx_preempt (PRE);
  for (int i = 0; i < FILL; i++) { blk[n].p = iot_data_block_alloc (size); blk[n++].tag = 0; }
  pthread_t t[3]; for (unsigned i = 0; i < THREADS; i++) pthread_create (&t[i], NULL, work, (void*) (uintptr_t) i);
  for (unsigned i = 0; i < THREADS; i++) pthread_join (t[i], NULL);
  for (unsigned i = 0; i < THREADS; i++) { for (uint32_t k = 0; k < size; k++) CHECK (th[i].p[0][k] == i + 1, "content of a block is kept"); for (unsigned j = 0; j < i; j++) CHECK (disjoint (th[i].p[0], th[j].p[0]), "blocks do not overlap"); }
  (void) ended; (void) get; (void) put;
#else            // data from the heap or from blocks, released under either policy
  iot_data_t * m, * l, * v, * s, * i, * p; bool heap[6]; uint64_t live = symx_live ();
  CHECK (!iot_data_alloc_heap (false), "data is allocated in blocks by default");
  bool was = false;
#define POL(k) { heap[k] = symx_choice ("heap", 2); CHECK (iot_data_alloc_heap (heap[k]) == was, "previous policy"); was = heap[k]; }
  POL (0) i = iot_data_alloc_i64 ((int64_t) symx_input ("v", 64));
  POL (1) s = iot_data_alloc_string (symx_choice ("long", 2) ? "a text that does not fit into the space left in a single block of memory" : "t", IOT_DATA_COPY);
  POL (2) p = iot_data_alloc_pointer (&live, NULL);
  POL (3) m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (m, STR ("k"), iot_data_add_ref (i)); iot_data_map_add (m, STR ("j"), iot_data_add_ref (s));
  POL (4) l = iot_data_alloc_list (); iot_data_list_tail_push (l, iot_data_add_ref (m)); iot_data_list_tail_push (l, iot_data_add_ref (p)); iot_data_list_head_push (l, iot_data_alloc_ui8 (1));
  POL (5) v = iot_data_alloc_vector (2); iot_data_vector_add (v, 1, iot_data_add_ref (l)); iot_data_t * c = iot_data_copy (v);
  iot_data_alloc_heap (was = symx_choice ("heap", 2));
  CHECK (iot_data_equal (c, v), "copy");
  iot_data_t * all[] = { i, s, p, m, l, v, c };
  if (symx_choice ("reverse", 2)) for (int k = 6; k >= 0; k--) iot_data_free (all[k]); else for (int k = 0; k < 7; k++) iot_data_free (all[k]);
  CHECK (symx_live () == live, "no leak");
  iot_data_alloc_heap (false);
  uint8_t * b = iot_data_block_alloc (size); check_new (b); iot_data_block_free (b);
  (void) get; (void) put; (void) check_all;
#endif
  symx_cover ("end");
  CHECK (at_end != NULL, "memory is released at the end"); at_end ();
  CHECK (symx_live () == 0, "no memory is left at the end");
}
