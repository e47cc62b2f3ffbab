// Native run time for harness replay: inputs come from the file named by SYMX_REPLAY (decimal values, one per line).
// Exit 0: harness completed; 77: property violated; 78: assumption not met; 79: inputs exhausted (diverged); 80: deadlock.
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ucontext.h>

static FILE * in; static FILE * lg;
static long live;
static void setup (void)
{
  if (in) return;
  const char * f = getenv ("SYMX_REPLAY"); in = f ? fopen (f, "r") : NULL;
  if (!in) { fprintf (stderr, "SYMX_REPLAY not set\n"); _exit (3); }
  const char * l = getenv ("SYMX_LOG"); lg = l ? fopen (l, "w") : NULL;
}
static uint64_t next (const char * name)
{
  setup ();
  unsigned long long v;
  if (fscanf (in, "%llu", &v) != 1) { printf ("SYMX inputs exhausted at %s\n", name); fflush (NULL); _exit (79); }
  if (getenv ("SYMX_TRACE")) fprintf (stderr, "input %s = %llu\n", name, v);
  return v;
}
uint64_t symx_input (const char * name, unsigned bits) { uint64_t v = next (name); return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
void symx_bytes (const char * name, void * p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t*) p)[i] = (uint8_t) next (name); }
uint64_t symx_choice (const char * name, uint64_t n) { (void) n; return next (name); }
void symx_assume (int c) { if (!c) { printf ("SYMX assumption not met\n"); fflush (NULL); _exit (78); } }
void symx_check (int c, const char * msg) { if (!c) { printf ("SYMX property violated: %s\n", msg); fflush (NULL); _exit (77); } }
void symx_fail (const char * msg) { symx_check (0, msg); _exit (77); }
void symx_cover (const char * l) { (void) l; }
void symx_log (uint64_t v) { setup (); if (lg) { fprintf (lg, "%llu\n", (unsigned long long) v); fflush (lg); } }
uint64_t symx_concretize (uint64_t v) { return v; }
void symx_prune (void) { printf ("SYMX assumption not met\n"); fflush (NULL); _exit (78); }
void symx_end (void) { fflush (NULL); _exit (0); }
void symx_print (const char * m, uint64_t v) { fprintf (stderr, "%s %llx\n", m, (unsigned long long) v); }
uint64_t symx_obj_size (const void * p) { (void) p; return 0; }

// live heap objects: counted through wrappers (-Wl,--wrap) around the allocator used by the code under test
void * __real_malloc (size_t); void * __real_calloc (size_t, size_t); void * __real_realloc (void *, size_t); void __real_free (void *);
char * __real_strdup (const char *); char * __real_strndup (const char *, size_t);
void * __wrap_malloc (size_t n) { void * p = __real_malloc (n); if (p) { live++; memset (p, 0xa5, n); } return p; }
void * __wrap_calloc (size_t n, size_t m) { void * p = __real_calloc (n, m); if (p) live++; return p; }
void * __wrap_realloc (void * q, size_t n) { void * p = __real_realloc (q, n); if (!q && p) live++; return p; }
void __wrap_free (void * p) { if (p) live--; __real_free (p); }
char * __wrap_strdup (const char * s) { live++; return __real_strdup (s); }
char * __wrap_strndup (const char * s, size_t n) { live++; return __real_strndup (s, n); }
uint64_t symx_live (void) { return (uint64_t) live; }
void symx_dump_live (void) { }

// ---- cooperative threads following the recorded schedule
#define MAXT 8
typedef struct { ucontext_t uc; int status; const void * wait; int timed, fired; void * (*fn) (void *); void * arg; char * stack; void * fake; } thr_t;
static thr_t T[MAXT]; static int nt = 1, cur = 0, preempt = 0;
#define STK (1 << 20)
#ifdef SYMX_TSAN
void * __tsan_get_current_fiber (void); void * __tsan_create_fiber (unsigned); void __tsan_switch_to_fiber (void *, unsigned);
void __tsan_acquire (void *); void __tsan_release (void *);
static char hbt[MAXT];
#endif
static void switch_to (int t)
{
  int old = cur; if (old == t) return;
  cur = t;
#ifdef SYMX_TSAN
  if (!T[old].fake) T[old].fake = __tsan_get_current_fiber ();
  __tsan_switch_to_fiber (T[t].fake, 1);
#endif
#ifdef SYMX_ASAN
  static char * mainstk; static size_t mainsz; (void) mainstk; (void) mainsz;
#endif
  swapcontext (&T[old].uc, &T[t].uc);
}
static void sched (int preemptible)
{
  int opt[MAXT], n = 0; int curok = T[cur].status == 0;
  if (preemptible && curok && preempt <= 0) return;
  for (int i = 0; i < nt; i++) if (T[i].status == 0) opt[n++] = i;
  if (!n)
  {
    int tw[MAXT], k = 0; for (int i = 0; i < nt; i++) if (T[i].status == 1 && T[i].timed) tw[k++] = i;
    if (k) { int t = k > 1 ? (int) next ("timeout") : tw[0]; T[t].status = 0; T[t].timed = 0; T[t].fired = 1; switch_to (t); return; }
  }
  if (!n) { printf ("SYMX deadlock\n"); fflush (NULL); _exit (80); }
  int t = opt[0]; if (curok) t = cur;
  if (n > 1) t = (int) next ("sched");
  if (t < 0 || t >= nt || T[t].status != 0) { printf ("SYMX schedule diverged\n"); fflush (NULL); _exit (79); }
  if (curok && preemptible && t != cur) preempt--;
  switch_to (t);
}
void symx_thread_exit (void)
{
  int me = cur; T[me].status = 2;
#ifdef SYMX_TSAN
  __tsan_release (&hbt[me]);
#endif
  for (int i = 0; i < nt; i++) if (T[i].status == 1 && T[i].wait == (void*) (uintptr_t) (0x10 + me)) T[i].status = 0;
  sched (0); for (;;) _exit (3);
}
static void tramp (void)
{
#ifdef SYMX_TSAN
  __tsan_acquire (&hbt[cur]);
#endif
  T[cur].fn (T[cur].arg); symx_thread_exit (); }
int symx_thread_create (void * (*fn) (void *), void * arg)
{
  if (nt >= MAXT) _exit (3);
  thr_t * t = &T[nt]; getcontext (&t->uc);
  t->stack = __real_malloc (STK); t->uc.uc_stack.ss_sp = t->stack; t->uc.uc_stack.ss_size = STK; t->uc.uc_link = NULL; t->fn = fn; t->arg = arg; t->status = 0;
  makecontext (&t->uc, tramp, 0);
#ifdef SYMX_TSAN
  t->fake = __tsan_create_fiber (0); __tsan_release (&hbt[nt]);
#endif
  return nt++;
}
int symx_thread_self (void) { return cur; }
int symx_thread_done (int t) { return t < nt && T[t].status == 2; }
void symx_thread_join (int t) { while (t < nt && T[t].status != 2) { T[cur].status = 1; T[cur].wait = (void*) (uintptr_t) (0x10 + t); sched (0); }
#ifdef SYMX_TSAN
  if (t < nt) __tsan_acquire (&hbt[t]);
#endif
}
void symx_yield (void) { sched (1); }
void symx_preempt (int n) { preempt = n; }
void symx_block (const void * a) { T[cur].status = 1; T[cur].wait = a; sched (0); }
int symx_block_timed (const void * a) { int me = cur; T[me].status = 1; T[me].wait = a; T[me].timed = 1; T[me].fired = 0; sched (0); return T[me].fired; }
int symx_wake (const void * a, int one)
{
  int w[MAXT], n = 0; for (int i = 0; i < nt; i++) if (T[i].status == 1 && T[i].wait == a) w[n++] = i;
  if (!one || n <= 1) { for (int i = 0; i < n; i++) { T[w[i]].status = 0; T[w[i]].timed = 0; } return n; }
  int t = (int) next ("wake"); T[t].status = 0; T[t].timed = 0;
  return n;
}
#ifdef SYMX_TSAN
void symx_hb_acquire (const void * a) { __tsan_acquire ((void*) a); }
void symx_hb_release (const void * a) { __tsan_release ((void*) a); }
#else
void symx_hb_acquire (const void * a) { (void) a; }
void symx_hb_release (const void * a) { (void) a; }
#endif
