// C19: the queue is a bounded FIFO for any number of producers and consumers
#include "h.h"
#include "iot/queue.h"
#include <pthread.h>
extern int sx_spurious;
static iot_data_t * item (uint32_t v) { return iot_data_alloc_ui32 (v); }
static uint32_t val (const iot_data_t * d) { return iot_data_ui32 (d); }
static iot_queue_t * q;
#if MODE == 1 || MODE == 2 || MODE == 3
static uint32_t got[2][8]; static unsigned ng[2]; static unsigned bound;
static void chk (void) { uint32_t n = iot_queue_size (q); CHECK (bound == 0 || n <= bound, "never more elements than the limit"); }
#endif
#if MODE == 1
static void * prod (void * a) { uint32_t b = (uint32_t) (uintptr_t) a; for (uint32_t i = 0; i < NP; i++) { iot_queue_enqueue (q, item (b + i)); chk (); } return NULL; }
static void * cons (void * a) { unsigned me = (unsigned) (uintptr_t) a; for (unsigned i = 0; i < NP; i++) { iot_data_t * d = iot_queue_dequeue (q); CHECK (d != NULL, "dequeue returns an element while the queue has not been stopped"); got[me][ng[me]++] = val (d); iot_data_free (d); } return NULL; }
#elif MODE == 2
static iot_data_t * keep[3]; static int done; static uint32_t nxt;
static void * prod (void * a) { (void) a; for (int i = 0; i < 3; i++) { iot_data_add_ref (keep[i]); iot_queue_enqueue (q, keep[i]); } done++; return NULL; }
static void * cons (void * a) { (void) a; for (;;) { iot_data_t * d = iot_queue_dequeue (q); if (!d) break; CHECK (val (d) >= nxt && val (d) < 3, "elements arrive in order, none twice"); nxt = val (d) + 1; iot_data_free (d); } return NULL; }
#elif MODE == 3
static int done;
static void * prod (void * a) { uint32_t b = (uint32_t) (uintptr_t) a; iot_queue_enqueue (q, item (b)); done++; return NULL; }
#endif
int main (void)
{
  LIVE0;
#if MODE == 0      // sequential histories against a reference
  uint32_t ref[8], n = 0, max = IN_U32 ("max"); bool stopped = false;
  q = iot_queue_alloc (max);
  for (int i = 0; i < N; i++)
  {
    uint32_t v = IN_U32 ("v");
    switch (symx_choice ("op", 6))
    {
      case 0: { iot_data_t * d = item (v); bool ok = iot_queue_try_enqueue (q, d); CHECK (ok == (max == 0 || n < max), "try enqueue succeeds exactly when there is space"); if (ok) ref[n++] = v; else iot_data_free (d); break; }
      case 1: { iot_data_t * d = iot_queue_try_dequeue (q); CHECK ((d != NULL) == (n > 0), "try dequeue succeeds exactly when not empty"); if (d) { CHECK (val (d) == ref[0], "first in first out"); iot_data_free (d); for (uint32_t k = 1; k < n; k++) ref[k - 1] = ref[k]; n--; } break; }
      case 2: if (max == 0 || n < max) { iot_queue_enqueue (q, item (v)); ref[n++] = v; } else if (stopped) { iot_data_t * d = item (v); iot_queue_enqueue (q, d); iot_data_free (d); } break;
      case 3: if (n || stopped) { iot_data_t * d = iot_queue_dequeue (q); CHECK ((d != NULL) == (n > 0), "a stopped queue still delivers what it holds, then nothing"); if (d) { CHECK (val (d) == ref[0], "first in first out"); iot_data_free (d); for (uint32_t k = 1; k < n; k++) ref[k - 1] = ref[k]; n--; } } break;
      case 4: max = IN_U32 ("newmax"); iot_queue_setmaxsize (q, max); break;
      default: iot_queue_stop (q); stopped = true; break;
    }
    CHECK (iot_queue_size (q) == n, "size"); CHECK (iot_queue_maxsize (q) == max, "limit");
  }
  iot_queue_free (q);
#elif MODE == 1    // NP items from each of two producers to two consumers
  sx_spurious = SP; symx_preempt (PRE);
  bound = MAX; q = iot_queue_alloc (MAX);
  pthread_t t[3];
  pthread_create (&t[0], NULL, prod, (void*) (uintptr_t) 10); pthread_create (&t[1], NULL, cons, (void*) (uintptr_t) 0); pthread_create (&t[2], NULL, cons, (void*) (uintptr_t) 1);
  prod ((void*) (uintptr_t) 20);
  for (int i = 0; i < 3; i++) pthread_join (t[i], NULL);
  unsigned seen = 0;
  for (int c = 0; c < 2; c++)
  {
    uint32_t last[2] = { 0, 0 };
    CHECK (ng[c] == NP, "each consumer got its share");
    for (unsigned k = 0; k < ng[c]; k++)
    {
      uint32_t v = got[c][k], p = v / 10 - 1, b = (v % 10) + p * 4;
      CHECK (p < 2 && v % 10 < NP && !(seen & (1u << b)), "every element is delivered exactly once"); seen |= 1u << b;
      CHECK (v > last[p], "elements of one producer stay in order"); last[p] = v;
    }
  }
  CHECK (iot_queue_size (q) == 0, "nothing left");
  iot_queue_free (q);
#elif MODE == 2    // stop releases blocked producers and consumers; elements held are delivered first
  symx_preempt (PRE);
  for (uint32_t i = 0; i < 3; i++) keep[i] = item (i);
  q = iot_queue_alloc (1);
  pthread_t t[2]; bool c = symx_choice ("consumer", 2);
  pthread_create (&t[0], NULL, prod, NULL); if (c) pthread_create (&t[1], NULL, cons, NULL);
  iot_queue_stop (q);
  pthread_join (t[0], NULL); if (c) pthread_join (t[1], NULL);
  CHECK (done == 1, "the producer returns once stopped");
  uint32_t left = iot_queue_size (q);
  CHECK (left <= 1, "limit respected");
  while (left--) { iot_data_t * d = iot_queue_dequeue (q); CHECK (d && val (d) >= nxt, "elements held stay available in order"); iot_data_free (d); }
  CHECK (iot_queue_dequeue (q) == NULL && iot_queue_try_dequeue (q) == NULL, "then nothing, without blocking");
  iot_queue_free (q);
  for (int i = 0; i < 3; i++) while (keep[i]) { bool last = iot_data_ref_count (keep[i]) == 1; iot_data_free (keep[i]); if (last) keep[i] = NULL; }
#else              // raising or removing the limit releases blocked producers
  symx_preempt (PRE);
  bound = 1; q = iot_queue_alloc (1); iot_queue_enqueue (q, item (1));
  pthread_t t[2];
  pthread_create (&t[0], NULL, prod, (void*) (uintptr_t) 2); pthread_create (&t[1], NULL, prod, (void*) (uintptr_t) 3);
  CHECK (done == 0, "producers block while the queue is full");
  uint32_t nm = symx_choice ("newmax", 2) ? 0 : 3;
  CHECK (iot_queue_size (q) == 1, "full");
  bound = nm; iot_queue_setmaxsize (q, nm);
  pthread_join (t[0], NULL); pthread_join (t[1], NULL);
  CHECK (iot_queue_size (q) == 3 && done == 2, "blocked producers continue");
  iot_queue_free (q);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
