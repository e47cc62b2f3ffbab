// C20: a thread pool runs every job exactly once, by priority, within its queue bound, and waits for all of them
#include "h.h"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include <pthread.h>
extern int sx_thread_fail;
static iot_threadpool_t * pool;
static int prio[8];   // priority of each thread, as set by the pool
int sx_pthread_getschedparam (pthread_t t, int * p, struct sched_param * s) { *p = SCHED_OTHER; s->sched_priority = prio[(unsigned) t & 7]; return 0; }
int sx_pthread_setschedparam (pthread_t t, int p, const struct sched_param * s) { (void) p; prio[(unsigned) t & 7] = s->sched_priority; return 0; }
static unsigned ran[8], nran, active, maxactive; static int order[8], pr[8];
static pthread_mutex_t m;
static void * job (void * a)
{
  unsigned i = (unsigned) (uintptr_t) a;
  pthread_mutex_lock (&m);
  ran[i]++; order[nran++] = (int) i; active++; if (active > maxactive) maxactive = active;
  CHECK (pr[i] == -1 || prio[(unsigned) pthread_self () & 7] == pr[i], "a job runs at its priority");
  pthread_mutex_unlock (&m);
#if MODE >= 2
  pthread_mutex_lock (&m); pthread_mutex_unlock (&m);   // a point at which others run
#endif
  pthread_mutex_lock (&m); active--; pthread_mutex_unlock (&m);
  return NULL;
}
static void add (unsigned i) { iot_threadpool_add_work (pool, job, (void*) (uintptr_t) i, pr[i]); }
#if MODE == 2
static void * adder (void * a) { (void) a; add (3); return NULL; }
#elif MODE == 6
static unsigned nadded;
static void * adder (void * a) { add ((unsigned) (uintptr_t) a); pthread_mutex_lock (&m); nadded++; pthread_mutex_unlock (&m); return NULL; }
#elif MODE == 3
static void * waiter (void * a) { iot_threadpool_wait (pool); CHECK (ran[0] == 1 && ran[1] == 1, "wait returns after all jobs queued before it have run"); *(int*) a = 1; return NULL; }
#elif MODE == 5
static int selfdone; static pthread_cond_t cv;
static void * selfdel (void * a) { (void) a; iot_threadpool_free (pool); pthread_mutex_lock (&m); selfdone = 1; pthread_cond_signal (&cv); pthread_mutex_unlock (&m); return NULL; }
#elif MODE == 8
static unsigned naccept, stops; static bool dostop;
static void * user (void * a)
{
  unsigned i = (unsigned) (uintptr_t) a;
  job (a);
  bool ok = iot_threadpool_try_work (pool, job, (void*) (uintptr_t) (i + 4), -1);
  pthread_mutex_lock (&m); naccept += ok; if (!ok) ran[i + 4] = 100; pthread_mutex_unlock (&m);
  if (dostop && i == 0) { iot_threadpool_stop (pool); pthread_mutex_lock (&m); stops++; pthread_mutex_unlock (&m); }
  return NULL;
}
#endif
int main (void)
{
  LIVE0;
  pthread_mutex_init (&m, NULL);
  for (int i = 0; i < 8; i++) pr[i] = -1;
#if MODE == 0      // queue order: descending priority, in order of arrival within a priority; bound of the queue
  uint32_t max = (uint32_t) symx_choice ("max", 3) * 2;
  pool = iot_threadpool_alloc (1, max, -1, -1, NULL);
  for (int round = 0; round < 2; round++)
  {
  int exp[8]; unsigned n = 0; nran = 0;
  for (unsigned i = 0; i < (round ? 2 : N); i++)
  {
    pr[i] = (int) (int8_t) symx_input ("prio", 3); pr[i] = pr[i] == 0 ? -1 : pr[i] * 12;
    bool ok = iot_threadpool_try_work (pool, job, (void*) (uintptr_t) i, pr[i]);
    CHECK (ok == (max == 0 || n < max), "a job is refused exactly when the queue is full");
    if (ok) { unsigned k = n; while (k && pr[exp[k - 1]] < pr[i]) { exp[k] = exp[k - 1]; k--; } exp[k] = (int) i; n++; }
  }
  CHECK (nran == 0, "nothing runs before the pool is started");
  iot_threadpool_start (pool); iot_threadpool_wait (pool);
  CHECK (nran == n, "every queued job has run");
  for (unsigned k = 0; k < n; k++) CHECK (order[k] == exp[k], "jobs run by priority, then in order of arrival");
  iot_threadpool_stop (pool);
  }
  iot_threadpool_free (pool);
#elif MODE == 1    // stop and restart
  symx_preempt (PRE);
  pool = iot_threadpool_alloc (TH, 0, -1, -1, NULL);
  if (symx_choice ("early", 2)) iot_threadpool_start (pool);
  add (0); add (1);
  iot_threadpool_start (pool);
  iot_threadpool_wait (pool);
  CHECK (ran[0] == 1 && ran[1] == 1, "both ran once");
  iot_threadpool_stop (pool);
  add (2);
  CHECK (iot_threadpool_try_work (pool, job, (void*) (uintptr_t) 3, -1), "accepted while stopped");
  CHECK (ran[2] == 0 && ran[3] == 0, "nothing runs while stopped");
  iot_threadpool_start (pool);
  iot_threadpool_wait (pool);
  CHECK (ran[2] == 1 && ran[3] == 1 && nran == 4, "jobs added while stopped run after the restart");
  iot_threadpool_free (pool);
#elif MODE == 2    // two adders, blocking at the bound
  symx_preempt (PRE);
  pool = iot_threadpool_alloc (TH, MAX, -1, -1, NULL);
  iot_threadpool_start (pool);
  pthread_t t; pthread_create (&t, NULL, adder, NULL);
  for (unsigned i = 0; i < 3; i++) add (i);
  pthread_join (t, NULL);
  iot_threadpool_wait (pool);
  CHECK (nran == 4 && active == 0, "wait returns when no job is queued or running");
  for (int i = 0; i < 4; i++) CHECK (ran[i] == 1, "every job ran exactly once");
  CHECK (maxactive <= TH, "no more jobs at once than threads");
  if (TH == 1) { int last = -1; for (int k = 0; k < 4; k++) if (order[k] != 3) { CHECK (order[k] > last, "jobs of one caller run in order"); last = order[k]; } }
  iot_threadpool_free (pool);
#elif MODE == 6    // several adders waiting at the bound
  symx_preempt (PRE);
  pool = iot_threadpool_alloc (TH, MAX, -1, -1, NULL);
  for (unsigned i = 0; i < MAX; i++) add (i);
  pthread_t t[2];
  pthread_create (&t[0], NULL, adder, (void*) 4); pthread_create (&t[1], NULL, adder, (void*) 5);
  pthread_mutex_lock (&m); CHECK (nadded == 0, "adding waits while the queue is full"); pthread_mutex_unlock (&m);
  iot_threadpool_start (pool);
  pthread_join (t[0], NULL); pthread_join (t[1], NULL);
  iot_threadpool_wait (pool);
  CHECK (nran == MAX + 2 && ran[4] == 1 && ran[5] == 1, "every waiting caller gets its job in");
  iot_threadpool_free (pool);
#elif MODE == 3    // several waiters
  symx_preempt (PRE);
  pool = iot_threadpool_alloc (1, 0, -1, -1, NULL);
  int d[2] = { 0, 0 }; pthread_t t[2];
  add (0); add (1);
  pthread_create (&t[0], NULL, waiter, &d[0]); pthread_create (&t[1], NULL, waiter, &d[1]);
  iot_threadpool_start (pool);
  iot_threadpool_wait (pool);
  pthread_join (t[0], NULL); pthread_join (t[1], NULL);
  CHECK (d[0] && d[1], "every waiter returns");
  iot_threadpool_free (pool);
#elif MODE == 4    // freeing at any moment: started jobs complete, others are discarded, nothing is used afterwards
  symx_preempt (PRE);
  pool = iot_threadpool_alloc (TH, 0, -1, -1, NULL);
  if (symx_choice ("ref", 2)) { iot_threadpool_add_ref (pool); iot_threadpool_free (pool); }
  iot_threadpool_start (pool);
  add (0); add (1);
  iot_threadpool_free (pool);
  CHECK (active == 0, "running jobs have completed when free returns");
  unsigned was = nran;
  CHECK (ran[0] <= 1 && ran[1] <= 1, "no job ran twice");
  symx_yield ();
  CHECK (nran == was, "no job starts after free returned");
#elif MODE == 5    // a job frees its own pool
  symx_preempt (PRE);
  pool = iot_threadpool_alloc (TH, 0, -1, -1, NULL);
  iot_threadpool_t * p = pool;
  iot_threadpool_start (pool);
  add (0);
  iot_threadpool_add_work (p, selfdel, NULL, -1);
  pthread_mutex_lock (&m); while (!selfdone) pthread_cond_wait (&cv, &m); pthread_mutex_unlock (&m);
  struct timespec ts = { 1, 0 }; nanosleep (&ts, NULL);
  CHECK (selfdone && ran[0] <= 1, "a pool can be freed from one of its jobs");
#elif MODE == 7    // threads that cannot be created: those there are do all the work, and freeing is complete
  symx_preempt (PRE);
  sx_thread_fail = TH;
  pool = iot_threadpool_alloc (TH, 2, -1, -1, NULL);
  sx_thread_fail = 0;
  iot_threadpool_t * q = iot_threadpool_alloc (1, 0, -1, -1, NULL);   // a second pool, unaffected
  iot_threadpool_t * first = pool;
  pool = q; add (2); pool = first;
  iot_threadpool_start (q);
  iot_threadpool_start (pool);
  CHECK (iot_threadpool_try_work (pool, job, (void*) 0, -1) && iot_threadpool_try_work (pool, job, (void*) 1, -1), "jobs are accepted");
  iot_threadpool_wait (q);
  CHECK (ran[2] == 1, "the other pool is unaffected");
  nanosleep (&(struct timespec) { 1, 0 }, NULL);
  CHECK (ran[0] <= 1 && ran[1] == ran[0], "both jobs run once, or neither when there is no thread");
  if (ran[0]) { iot_threadpool_wait (pool); symx_cover ("some"); } else symx_cover ("none");
  iot_threadpool_free (pool);
  iot_threadpool_free (q);
#elif MODE == 8    // jobs that add jobs to their own pool, and stop it
  symx_preempt (PRE);
  dostop = symx_choice ("stop", 2);
  pool = iot_threadpool_alloc (TH, 2, -1, -1, NULL);
  iot_threadpool_start (pool);
  for (unsigned i = 0; i < 2; i++) iot_threadpool_add_work (pool, user, (void*) (uintptr_t) i, -1);
  if (dostop)
  {
    for (bool go = false; !go; ) { pthread_mutex_lock (&m); go = stops; pthread_mutex_unlock (&m); if (!go) nanosleep (&(struct timespec) { 0, 1000 }, NULL); }
    iot_threadpool_start (pool);
  }
  iot_threadpool_wait (pool);
  CHECK (ran[0] == 1 && ran[1] == 1, "jobs that use their pool run once");
  for (unsigned i = 4; i < 6; i++) CHECK (ran[i] == 1 || ran[i] == 100, "a job added by a job runs once if accepted");
  CHECK (nran == 2 + naccept, "exactly the accepted jobs have run");
  if (naccept == 2) symx_cover ("both");
  iot_threadpool_free (pool);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
