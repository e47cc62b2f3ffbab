// POSIX threads model on top of the engine's cooperative scheduler. Scheduling points: lock acquisition, waits, thread start/exit,
// so together with the data-race detector every interleaving of race-free code is covered (up to the preemption bound).
#define _GNU_SOURCE
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include "symx.h"
#define W __attribute__((weak))
int sx_spurious W = 0;          // number of spurious condition wake-ups still allowed
int sx_timeouts W = 2;          // number of early (racing) timeouts still allowed
int sx_thread_fail W = 0;       // number of thread creations that may fail

W int sx_pthread_mutex_init (pthread_mutex_t * m, const pthread_mutexattr_t * a) { m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__kind = a ? *(const int*) a & 3 : 0; return 0; }
W int sx_pthread_mutex_destroy (pthread_mutex_t * m) { if (m->__data.__lock) symx_fail ("mutex destroyed while locked"); return 0; }
W int sx_pthread_mutexattr_init (pthread_mutexattr_t * a) { *(int*) a = 0; return 0; }
W int sx_pthread_mutexattr_destroy (pthread_mutexattr_t * a) { (void) a; return 0; }
W int sx_pthread_mutexattr_settype (pthread_mutexattr_t * a, int t) { *(int*) a = t; return 0; }
W int sx_pthread_mutexattr_setprotocol (pthread_mutexattr_t * a, int p) { (void) a; (void) p; return 0; }
static int self (void) { return symx_thread_self () + 1; }
static void acquire (pthread_mutex_t * m)
{
  if (m->__data.__lock && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == self ()) { m->__data.__lock++; return; }
  while (m->__data.__lock) symx_block (m);
  m->__data.__lock = 1; m->__data.__owner = self ();
  symx_hb_acquire (m);
}
static void drop (pthread_mutex_t * m)
{
  if (!m->__data.__lock || m->__data.__owner != self ()) symx_fail ("mutex unlocked by a thread that does not hold it");
  if (--m->__data.__lock) return;
  m->__data.__owner = 0;
  symx_hb_release (m);
  symx_wake (m, 0);
}
W int sx_pthread_mutex_lock (pthread_mutex_t * m) { symx_yield (); acquire (m); return 0; }
W int sx_pthread_mutex_trylock (pthread_mutex_t * m) { symx_yield (); if (m->__data.__lock && !(m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == self ())) return EBUSY; acquire (m); return 0; }
W int sx_pthread_mutex_unlock (pthread_mutex_t * m) { drop (m); return 0; }

W int sx_pthread_cond_init (pthread_cond_t * c, const pthread_condattr_t * a) { (void) c; (void) a; return 0; }
W int sx_pthread_cond_destroy (pthread_cond_t * c) { (void) c; return 0; }
W int sx_pthread_cond_wait (pthread_cond_t * c, pthread_mutex_t * m)
{
  int n = m->__data.__lock;
  if (n > 1) m->__data.__lock = 1;
  drop (m);
  if (sx_spurious > 0 && symx_choice ("spurious", 2)) { sx_spurious--; symx_yield (); }
  else symx_block (c);
  acquire (m);
  m->__data.__lock = n;
  return 0;
}
W int sx_pthread_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  int r = 0; (void) t;
  drop (m);
  if (sx_timeouts > 0 && symx_choice ("early timeout", 2)) { sx_timeouts--; symx_yield (); r = ETIMEDOUT; }
  else if (symx_block_timed (c)) r = ETIMEDOUT;
  acquire (m);
  return r;
}
W int sx_pthread_cond_signal (pthread_cond_t * c) { symx_wake (c, 1); return 0; }
W int sx_pthread_cond_broadcast (pthread_cond_t * c) { symx_wake (c, 0); return 0; }
W int sx_pthread_condattr_init (pthread_condattr_t * a) { (void) a; return 0; }
W int sx_pthread_condattr_destroy (pthread_condattr_t * a) { (void) a; return 0; }
W int sx_pthread_condattr_setclock (pthread_condattr_t * a, clockid_t k) { (void) a; (void) k; return 0; }

W int sx_pthread_rwlock_init (pthread_rwlock_t * l, const pthread_rwlockattr_t * a) { (void) a; int * d = (int*) l; d[0] = 0; d[1] = 0; return 0; }
W int sx_pthread_rwlock_destroy (pthread_rwlock_t * l) { int * d = (int*) l; if (d[0] || d[1]) symx_fail ("rwlock destroyed while locked"); return 0; }
W int sx_pthread_rwlock_rdlock (pthread_rwlock_t * l) { int * d = (int*) l; symx_yield (); while (d[1]) symx_block (l); d[0]++; symx_hb_acquire (l); return 0; }
W int sx_pthread_rwlock_wrlock (pthread_rwlock_t * l) { int * d = (int*) l; symx_yield (); while (d[1] || d[0]) symx_block (l); d[1] = self (); symx_hb_acquire (l); symx_hb_acquire ((char*) l + 1); return 0; }
W int sx_pthread_rwlock_unlock (pthread_rwlock_t * l)
{
  int * d = (int*) l;
  if (d[1]) { if (d[1] != self ()) symx_fail ("rwlock unlocked by a thread that does not hold it"); d[1] = 0; symx_hb_release (l); }
  else { if (d[0] <= 0) symx_fail ("rwlock unlocked while not held"); d[0]--; symx_hb_release ((char*) l + 1); }
  symx_wake (l, 0);
  return 0;
}
W int sx_pthread_rwlock_tryrdlock (pthread_rwlock_t * l) { int * d = (int*) l; symx_yield (); if (d[1]) return EBUSY; d[0]++; symx_hb_acquire (l); return 0; }
W int sx_pthread_rwlock_trywrlock (pthread_rwlock_t * l) { int * d = (int*) l; symx_yield (); if (d[1] || d[0]) return EBUSY; d[1] = self (); symx_hb_acquire (l); symx_hb_acquire ((char*) l + 1); return 0; }
W int sx_pthread_mutex_timedlock (pthread_mutex_t * m, const struct timespec * t) { (void) t; symx_yield (); acquire (m); return 0; }
W int sx_pthread_spin_init (pthread_spinlock_t * l, int s) { (void) s; *(int*) l = 0; return 0; }
W int sx_pthread_spin_destroy (pthread_spinlock_t * l) { (void) l; return 0; }
W int sx_pthread_spin_lock (pthread_spinlock_t * l) { symx_yield (); while (*(int*) l) symx_block ((void*) l); *(int*) l = 1; symx_hb_acquire ((void*) l); return 0; }
W int sx_pthread_spin_trylock (pthread_spinlock_t * l) { symx_yield (); if (*(int*) l) return EBUSY; *(int*) l = 1; symx_hb_acquire ((void*) l); return 0; }
W int sx_pthread_spin_unlock (pthread_spinlock_t * l) { *(int*) l = 0; symx_hb_release ((void*) l); symx_wake ((void*) l, 0); return 0; }
W int sx_pthread_once (pthread_once_t * o, void (*fn) (void))      // 0 not done, 1 being done, 2 done
{
  symx_yield ();
  while (*o == 1) symx_block (o);
  if (*o == 0) { *o = 1; fn (); symx_hb_release (o); *o = 2; symx_wake (o, 0); }
  symx_hb_acquire (o);
  return 0;
}
W int sx_pthread_create (pthread_t * t, const pthread_attr_t * a, void * (*fn) (void *), void * arg)
{
  (void) a;
  if (sx_thread_fail > 0 && symx_choice ("thread create fails", 2)) { sx_thread_fail--; return EAGAIN; }
  *t = (pthread_t) symx_thread_create (fn, arg) + 1;
  symx_yield ();
  return 0;
}
W int sx_pthread_join (pthread_t t, void ** r) { if (r) *r = NULL; symx_thread_join ((int) t - 1); return 0; }
W int sx_pthread_detach (pthread_t t) { (void) t; return 0; }
W pthread_t sx_pthread_self (void) { return (pthread_t) self (); }
W int sx_pthread_equal (pthread_t a, pthread_t b) { return a == b; }
W void sx_pthread_exit (void * r) { (void) r; symx_thread_exit (); }
W int sx_pthread_cancel (pthread_t t) { (void) t; return 0; }
W int sx_pthread_setcanceltype (int t, int * o) { (void) t; (void) o; return 0; }
W int sx_pthread_attr_init (pthread_attr_t * a) { (void) a; return 0; }
W int sx_pthread_attr_destroy (pthread_attr_t * a) { (void) a; return 0; }
W int sx_pthread_attr_setdetachstate (pthread_attr_t * a, int s) { (void) a; (void) s; return 0; }
W int sx_pthread_attr_setinheritsched (pthread_attr_t * a, int s) { (void) a; (void) s; return 0; }
W int sx_pthread_attr_setschedpolicy (pthread_attr_t * a, int s) { (void) a; (void) s; return 0; }
W int sx_pthread_attr_setschedparam (pthread_attr_t * a, const struct sched_param * s) { (void) a; (void) s; return 0; }
W int sx_pthread_attr_setaffinity_np (pthread_attr_t * a, size_t n, const cpu_set_t * s) { (void) a; (void) n; (void) s; return 0; }
W int sx_pthread_getschedparam (pthread_t t, int * p, struct sched_param * s) { (void) t; *p = SCHED_OTHER; s->sched_priority = 0; return 0; }
W int sx_pthread_setschedparam (pthread_t t, int p, const struct sched_param * s) { (void) t; (void) p; (void) s; return 0; }
W int sx_pthread_setname_np (pthread_t t, const char * n) { (void) t; (void) n; return 0; }
W int sx_sched_get_priority_max (int p) { (void) p; return 99; }
W int sx_sched_get_priority_min (int p) { (void) p; return 1; }
W int sx_sched_yield (void) { symx_yield (); return 0; }
W int sx_prctl (int o, ...) { (void) o; return 0; }
W long sx_sysconf (int n) { (void) n; return 4; }
W unsigned sx_geteuid (void) { return 0; }

// time: a settable clock; harnesses override sx_clock_gettime for an arbitrary clock
uint64_t sx_now W = 1000000000000ULL;
W int sx_clock_gettime (clockid_t c, struct timespec * t) { (void) c; t->tv_sec = (time_t) (sx_now / 1000000000ULL); t->tv_nsec = (long) (sx_now % 1000000000ULL); return 0; }
int sx_early W = 0;             // number of sleeps that may end before the other threads get anywhere; otherwise a sleep lasts until nothing else can run
W int sx_nanosleep (const struct timespec * a, struct timespec * b)
{
  (void) b; sx_now += (uint64_t) a->tv_sec * 1000000000ULL + (uint64_t) a->tv_nsec;
  if (sx_early > 0 && symx_choice ("sleep ends early", 2)) { sx_early--; symx_yield (); }
  else { char here; symx_block_timed (&here); }
  return 0;
}
W int sx_usleep (unsigned us) { struct timespec t = { us / 1000000u, (long) (us % 1000000u) * 1000L }; return sx_nanosleep (&t, NULL); }
W int sx_clock_nanosleep (clockid_t c, int f, const struct timespec * a, struct timespec * b)
{
  struct timespec t = *a; (void) c;
  if (f) { uint64_t at = (uint64_t) a->tv_sec * 1000000000ULL + (uint64_t) a->tv_nsec, d = at > sx_now ? at - sx_now : 0; t.tv_sec = (time_t) (d / 1000000000ULL); t.tv_nsec = (long) (d % 1000000000ULL); }
  sx_nanosleep (&t, b); return 0;
}
W time_t sx_time (time_t * p) { struct timespec t; sx_clock_gettime (CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
W long sx_getrandom (void * p, size_t n, unsigned f) { (void) f; symx_bytes ("random", p, n); return (long) n; }
