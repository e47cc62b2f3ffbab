// Loggers, thread pools and schedulers built from a configuration, working together in a container
#define _GNU_SOURCE
#include "h.h"
#include "iot/container.h"
#include "iot/logger.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"
#include "iot/thread.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
static char o_, e_; FILE * const sxc_out = (FILE*) &o_, * const sxc_err = (FILE*) &e_;
static int lines; int sx_fprintf (FILE * f, const char * fmt, ...) { (void) f; (void) fmt; lines++; return 1; }
int sx_prctl (int op, ...) { (void) op; return 0; }
char * sx_getenv (const char * n) { (void) n; return NULL; }
static int prio = -1, cpu = -1, prios, cpus;
int sx_pthread_attr_setschedparam (pthread_attr_t * a, const struct sched_param * s) { (void) a; prio = s->sched_priority; prios++; return 0; }
int sx_pthread_attr_setaffinity_np (pthread_attr_t * a, size_t n, const cpu_set_t * s) { (void) a; (void) n; for (int i = 0; i < 8; i++) if (CPU_ISSET (i, s)) cpu = i; cpus++; return 0; }
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER; static int active, ran, fired; static bool go;
static void * job (void * a) { (void) a; pthread_mutex_lock (&m); active++; while (!go) pthread_cond_wait (&cv, &m); active--; ran++; pthread_mutex_unlock (&m); return NULL; }
static void * tick (void * a) { pthread_mutex_lock (&m); fired++; pthread_mutex_unlock (&m); return a; }
#include <errno.h>
extern uint64_t sx_now;
// time passes only when every thread waits; the earliest deadline fires first
static uint64_t dl[8];
static int timed_block (const void * at, uint64_t d)
{
  int me = symx_thread_self (); dl[me] = d;
  int fired = symx_block_timed (at);
  dl[me] = 0;
  if (fired)
  {
    for (int i = 0; i < 8; i++) if (dl[i] && dl[i] < d) symx_prune ();
    if (d > sx_now) sx_now = d;
  }
  return fired;
}
int sx_pthread_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  uint64_t d = (uint64_t) t->tv_sec * 1000000000u + (uint64_t) t->tv_nsec; int r = 0;
  CHECK (t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "valid time");
  pthread_mutex_unlock (m);
  if (d <= sx_now) { symx_yield (); r = ETIMEDOUT; } else if (timed_block (c, d)) r = ETIMEDOUT;
  pthread_mutex_lock (m);
  return r;
}
int sx_nanosleep (const struct timespec * a, struct timespec * b) { char h; (void) b; timed_block (&h, sx_now + (uint64_t) a->tv_sec * 1000000000u + (uint64_t) a->tv_nsec); return 0; }
static void idle (void) { struct timespec t = { 1, 0 }; nanosleep (&t, NULL); }
static char text[3][120]; static int loads;
static char * load (const char * n, const char * u)
{
  (void) u; loads++;
  if (!strcmp (n, "main")) return strdup (symx_choice ("reverse", 2) ? "{\"sched\":\"IOT::Scheduler\",\"pool\":\"IOT::ThreadPool\",\"log\":\"IOT::Logger\"}" : "{\"log\":\"IOT::Logger\",\"pool\":\"IOT::ThreadPool\",\"sched\":\"IOT::Scheduler\"}");
  return strdup (text[!strcmp (n, "log") ? 0 : !strcmp (n, "pool") ? 1 : 2]);
}
int main (void)
{
  iot_component_factory_add (iot_logger_factory ()); iot_component_factory_add (iot_threadpool_factory ()); iot_component_factory_add (iot_scheduler_factory ());
  CHECK (!strcmp (iot_threadpool_factory ()->type, IOT_THREADPOOL_TYPE) && !strcmp (iot_scheduler_factory ()->type, IOT_SCHEDULER_TYPE), "types");
  LIVE0;
  static iot_container_config_t cfg = { load, "u", NULL }; iot_container_config (&cfg);
  bool pl = PL, sl = SL; int threads = TH, max = MAX; bool pr = symx_choice ("priority", 2);
  strcpy (text[0], "{\"Name\":\"l\",\"Level\":\"Trace\"}");
  strcpy (text[1], "{\"x\":1"); if (pl) strcat (text[1], ",\"Logger\":\"log\""); if (threads) { strcat (text[1], ",\"Threads\":?"); text[1][strlen (text[1]) - 1] = (char) ('0' + threads); } if (max) { strcat (text[1], ",\"MaxJobs\":?"); text[1][strlen (text[1]) - 1] = (char) ('0' + max); } if (pr) strcat (text[1], ",\"Priority\":17,\"Affinity\":2"); strcat (text[1], ",\"ShutdownDelay\":5}");
  strcpy (text[2], "{\"x\":1"); if (sl) strcat (text[2], ",\"Logger\":\"log\""); if (!pr) strcat (text[2], ",\"Priority\":23,\"Affinity\":3"); strcat (text[2], "}");
  iot_container_t * c = iot_container_alloc ("main");
  CHECK (iot_container_init (c), "initialised");
  int nt = threads ? threads : 2;
  iot_threadpool_t * pool = (iot_threadpool_t*) iot_container_find_component (c, "pool"); iot_scheduler_t * sched = (iot_scheduler_t*) iot_container_find_component (c, "sched");
  CHECK (pool && sched && iot_container_find_component (c, "log"), "all created");
  CHECK (prio == (pr ? 17 : 23) && cpu == (pr ? 2 : 3) && prios == (pr ? nt : 1) && cpus == prios, "exactly the threads of the component configured so get its priority and processor");
  CHECK ((lines > 0) == (pl || sl), "messages go to the logger named"); int before = lines;
  int n = 0; while (n < 4 && iot_threadpool_try_work (pool, job, NULL, -1)) n++;
  CHECK (n == (max ? max : 4), "jobs queued up to the configured number"); CHECK ((lines > before) == pl, "the pool logs exactly when configured to"); before = lines;
  iot_schedule_t * s = iot_schedule_create (sched, tick, NULL, NULL, 1000, 0, 1, NULL, -1); CHECK ((lines > before) == sl, "the scheduler logs exactly when configured to");
  CHECK (iot_schedule_id (s) != UINT64_MAX, "schedules have an identity"); CHECK (iot_schedule_add (sched, s), "scheduled");
  if (symx_choice ("held", 2)) { iot_scheduler_add_ref (sched); iot_scheduler_free (sched); }
  idle (); CHECK (!active && !fired, "nothing runs before the container is started");
  iot_container_start (c); idle ();
  pthread_mutex_lock (&m); CHECK (active == (n < nt ? n : nt), "as many jobs at once as threads configured"); go = true; pthread_cond_broadcast (&cv); pthread_mutex_unlock (&m);
  idle (); iot_threadpool_wait (pool);
  CHECK (ran == n && fired == 1, "every job and the schedule have run");
  iot_container_stop (c);
  iot_container_free (c);
  symx_cover ("end");
  LIVE_END ("no leak");
}
