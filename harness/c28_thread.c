// C28: thread creation with priority, affinity and fallback; mutex attributes
#define _GNU_SOURCE
#include "h.h"
#include "iot/thread.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
typedef struct { int magic, detached, inherit, policy, prio, cpu; } at_t;
static at_t * A (const pthread_attr_t * a) { at_t * x = (at_t*) a; CHECK (x->magic == 77, "attributes are initialised before use"); return x; }
static int inits, fails; static bool fail (const char * n) { return fails > 0 && symx_choice (n, 2) ? (fails--, true) : false; }
int sx_pthread_attr_init (pthread_attr_t * a) { static const at_t z = { 77, 0, 0, -1, -1, -1 }; *(at_t*) a = z; inits++; return 0; }
int sx_pthread_attr_destroy (pthread_attr_t * a) { A (a)->magic = 0; inits--; return 0; }
int sx_pthread_attr_setdetachstate (pthread_attr_t * a, int s) { A (a)->detached = s == PTHREAD_CREATE_DETACHED; return 0; }
int sx_pthread_attr_setinheritsched (pthread_attr_t * a, int s) { A (a)->inherit = s; return 0; }
int sx_pthread_attr_setschedpolicy (pthread_attr_t * a, int s) { if (fail ("policy")) return EINVAL; A (a)->policy = s; return 0; }
int sx_pthread_attr_setschedparam (pthread_attr_t * a, const struct sched_param * s) { if (fail ("param")) return EINVAL; A (a)->prio = s->sched_priority; return 0; }
int sx_pthread_attr_setaffinity_np (pthread_attr_t * a, size_t n, const cpu_set_t * s) { int c = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET (i, s)) { A (a)->cpu = i; c++; } CHECK (c == 1 && n == sizeof (cpu_set_t), "one processor"); if (fail ("affinity")) { A (a)->cpu = -1; return EINVAL; } return 0; }
static int lo = 1, hi = 99, ncpu; static unsigned euid; static int gets;
int sx_sched_get_priority_max (int p) { CHECK (p == SCHED_FIFO, "real time priorities"); return hi; }
int sx_sched_get_priority_min (int p) { CHECK (p == SCHED_FIFO, "real time priorities"); return lo; }
long sx_sysconf (int n) { (void) n; return ncpu; }
unsigned sx_geteuid (void) { return euid; }
static int creates, made; static at_t used[3]; static char arg_; static void * fn (void * a) { return a; }
static int which_fail;
int sx_pthread_create (pthread_t * t, const pthread_attr_t * a, void * (*f) (void *), void * arg)
{
  CHECK (f == fn && arg == &arg_, "the function and argument given"); CHECK (creates < 2, "at most two attempts"); CHECK (made == 0, "never created twice");
  static const at_t dflt = { 0, 0, 0, -1, -1, -1 };
  used[creates] = a ? *A (a) : dflt;
  if (which_fail & (1 << creates++)) return EPERM;
  made++; *t = (pthread_t) 4242; return 0;
}
static int errors, warns; static iot_logger_t lg;
void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...) { CHECK (l == &lg, "logger given"); if (level == IOT_LOG_ERROR) errors++; else warns++; }
static int sp_policy, sp_prio; static pthread_t sp_t; static bool sp_fail;
int sx_pthread_setschedparam (pthread_t t, int p, const struct sched_param * s) { sp_t = t; sp_policy = p; sp_prio = s->sched_priority; return sp_fail ? EPERM : 0; }
int sx_pthread_getschedparam (pthread_t t, int * p, struct sched_param * s) { CHECK (t == (pthread_t) 4242 || t == (pthread_t) 11, "of the thread"); *p = SCHED_FIFO; s->sched_priority = t == (pthread_t) 11 ? 7 : 33; return 0; }
pthread_t sx_pthread_self (void) { return (pthread_t) 11; }
static int mtype, mproto = -1, mattr; static bool minit;
int sx_pthread_mutexattr_init (pthread_mutexattr_t * a) { (void) a; mattr++; return 0; }
int sx_pthread_mutexattr_settype (pthread_mutexattr_t * a, int t) { (void) a; mtype = t; return 0; }
int sx_pthread_mutexattr_setprotocol (pthread_mutexattr_t * a, int p) { (void) a; mproto = p; return 0; }
int sx_pthread_mutexattr_destroy (pthread_mutexattr_t * a) { (void) a; mattr--; return 0; }
int sx_pthread_mutex_init (pthread_mutex_t * m, const pthread_mutexattr_t * a) { CHECK (a && mattr == 1, "attributes"); memset (m, 0, sizeof (*m)); minit = true; return 0; }
int main (void)
{
  LIVE0;
  lo = 1 + (int) symx_choice ("min", 2); hi = 98 + (int) symx_choice ("max", 2);
  int prio = (int) IN_U32 ("priority"), aff = (int) IN_U32 ("affinity"); ncpu = 1 + 3 * (int) symx_choice ("cpus", 2); euid = IN_U32 ("euid"); which_fail = (int) symx_choice ("fail", 4); fails = FAILS;
  bool valid = prio >= lo && prio <= hi;
  CHECK (iot_thread_priority_valid (prio) == valid, "valid exactly within the range of real time priorities");
  lg.level = IOT_LOG_TRACE; pthread_t t = 0; bool tid = symx_choice ("tid", 2), log = symx_choice ("log", 2);
  bool ok = iot_thread_create (tid ? &t : NULL, fn, &arg_, prio, aff, log ? &lg : NULL);
  CHECK (ok == (made == 1), "reports exactly whether the thread was created"); CHECK (ok == (which_fail != 3), "retried with default attributes"); CHECK (creates == (which_fail & 1 ? 2 : 1), "attempts");
  CHECK (inits == 0, "attributes released"); if (tid && ok) CHECK (t == (pthread_t) 4242, "thread returned");
  CHECK (used[0].detached, "threads are detached"); CHECK (used[0].inherit == PTHREAD_EXPLICIT_SCHED, "explicit scheduling");
  bool none = FAILS == 0;
  if (none) { CHECK (used[0].policy == (valid && euid == 0 ? SCHED_FIFO : -1), "real time policy exactly when permitted and the priority valid"); CHECK (used[0].prio == (valid && euid == 0 ? prio : -1), "at the priority given"); CHECK (used[0].cpu == (aff >= 0 && aff < ncpu ? aff : -1), "affinity exactly when there is such a processor"); }
  if (creates == 2) CHECK (used[1].detached, "also on the second attempt") ;
  if (creates == 2) CHECK (used[1].prio == -1 && used[1].policy == -1 && used[1].cpu == -1, "which asks for no priority or affinity");
  CHECK (errors == (!ok && log), "a failure is logged as error"); CHECK (warns == (log ? FAILS - fails : 0), "each attribute refused as warning");
  if (ok) symx_cover ("created");
  sp_fail = symx_choice ("denied", 2); int np = (int) IN_U32 ("new priority");
  if (symx_choice ("current", 2)) { CHECK (iot_thread_current_set_priority (np) == !sp_fail, "set"); CHECK (sp_t == (pthread_t) 11, "self"); CHECK (iot_thread_current_get_priority () == 7, "read"); }
  else { CHECK (iot_thread_set_priority ((pthread_t) 4242, np) == !sp_fail, "set"); CHECK (sp_t == (pthread_t) 4242, "thread"); CHECK (iot_thread_get_priority ((pthread_t) 4242) == 33, "read"); }
  CHECK (sp_policy == SCHED_FIFO && sp_prio == np, "real time at the priority given");
  pthread_mutex_t m; iot_mutex_init (&m); CHECK (minit && mattr == 0 && mproto == PTHREAD_PRIO_INHERIT, "mutexes inherit priority");
  symx_cover ("end");
  LIVE_END ("no leak");
}
