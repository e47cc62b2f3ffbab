// C18: nanosecond timestamps are unique and strictly increasing under any clock and any interleaving; waits wait
#include "h.h"
#include "iot/time.h"
#include <pthread.h>
#include <errno.h>
#ifndef NB
#define NB 30
#endif
static uint64_t last_ns;
int sx_clock_gettime (clockid_t c, struct timespec * t)
{
  (void) c;
  static const uint64_t secs[] = { 1700000000u, 0, 1700000001u, 0x200000000u };
  uint64_t s = secs[symx_choice ("sec", NSEC)], n = symx_input ("nsec", NB); ASSUME (n < 1000000000u);
  t->tv_sec = (time_t) s; t->tv_nsec = (long) n; last_ns = s * 1000000000u + n; return 0;
}
#if MODE == 0
static uint64_t got[2][2];
static void * run (void * a) { int i = (int) (intptr_t) a; got[i][0] = iot_time_nsecs (); got[i][1] = iot_time_nsecs (); return NULL; }
#endif
static uint64_t asked, slept; static int intr;
int sx_nanosleep (const struct timespec * a, struct timespec * r)
{
  CHECK (a->tv_nsec >= 0 && a->tv_nsec < 1000000000, "valid nanoseconds field");
  uint64_t ns = (uint64_t) a->tv_sec * 1000000000u + (uint64_t) a->tv_nsec;
  CHECK (slept + ns == asked, "sleeps exactly what is left");
  if (intr && symx_choice ("interrupted", 2))
  {
    intr--;
    uint64_t rs = symx_choice ("rem s", 2) ? ns / 2000000000u : 0, rn = symx_input ("rem ns", 30); ASSUME (rn < 1000000000u); ASSUME (rs * 1000000000u + rn <= ns);
    if (r) { r->tv_sec = (time_t) rs; r->tv_nsec = (long) rn; }
    slept += ns - (rs * 1000000000u + rn); errno = EINTR; return -1;
  }
  slept += ns; return 0;
}
int main (void)
{
#if MODE == 0
  symx_preempt (PRE);
  pthread_t t[2];
  uint64_t before = iot_time_nsecs ();
  for (intptr_t i = 0; i < 2; i++) pthread_create (&t[i], NULL, run, (void*) i);
  for (int i = 0; i < 2; i++) pthread_join (t[i], NULL);
  uint64_t after = iot_time_nsecs ();
  CHECK (got[0][0] < got[0][1] && got[1][0] < got[1][1], "strictly increasing within a thread");
  for (int i = 0; i < 2; i++) { CHECK (got[0][i] != got[1][0] && got[0][i] != got[1][1], "unique across threads"); CHECK (before < got[i][0] && got[i][1] < after, "later calls return later times"); }
#elif MODE == 1
  uint64_t p = 0;
  for (int i = 0; i < 3; i++) { uint64_t v = iot_time_nsecs (); CHECK (v >= last_ns, "never behind the clock"); CHECK (v == last_ns || v == p + 1, "the clock itself unless that would not increase"); CHECK (v > p || (i == 0 && v >= p), "strictly increasing even if the clock goes backwards"); p = v; }
  uint64_t v = iot_time_secs (); CHECK (v == last_ns / 1000000000u, "seconds");
  v = iot_time_msecs (); CHECK (v == last_ns / 1000000u, "milliseconds");
  v = iot_time_usecs (); CHECK (v == last_ns / 1000u, "microseconds");
#else
  intr = 2;
  static const uint64_t base[] = { 0, 999, 1000000 - 3, 0x100000000u };
  uint64_t v = base[symx_choice ("base", 4)] + symx_input ("interval", 4);
  switch (symx_choice ("unit", 3))
  {
    case 0: asked = v * 1000000000u; iot_wait_secs (v); break;
    case 1: asked = v * 1000000u; iot_wait_msecs (v); break;
    default: asked = v * 1000u; iot_wait_usecs (v); break;
  }
  CHECK (slept == asked, "the whole interval has passed on return, however often interrupted");
#endif
  symx_cover ("end");
  return 0;
}
