// C28: several threads asking about priorities for the first time at the same moment
#define _GNU_SOURCE
#include "h.h"
#include "iot/thread.h"
#include <pthread.h>
#include <sched.h>
int sx_sched_get_priority_max (int p) { CHECK (p == SCHED_FIFO, "real time priorities"); symx_yield (); return 99; }
int sx_sched_get_priority_min (int p) { CHECK (p == SCHED_FIFO, "real time priorities"); symx_yield (); return 1; }
static int prio;
static void * worker (void * a) { (void) a; CHECK (iot_thread_priority_valid (prio) == (prio >= 1 && prio <= 99), "valid exactly within the range of real time priorities"); return NULL; }
int main (void)
{
  symx_preempt (PRE); prio = (int) IN_U32 ("priority");
  pthread_t t[2]; for (int i = 0; i < 2; i++) pthread_create (&t[i], NULL, worker, NULL);
  worker (NULL); for (int i = 0; i < 2; i++) pthread_join (t[i], NULL);
  symx_cover ("end");
}
