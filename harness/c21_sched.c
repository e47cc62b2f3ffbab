// C21: schedules run when due, in order, as often as asked, never after removal; under a virtual clock
#include "h.h"
#include "iot/scheduler.h"
#include "iot/thread.h"
#include <pthread.h>
#include <errno.h>
#define U 1000000u            /* time unit of the harness, in nanoseconds; events are told apart by units, the few nanoseconds that pass within the code are ignored */
extern uint64_t sx_now; extern int sx_thread_fail;
// time passes only when every thread waits; the earliest deadline fires first
static uint64_t dl[8];
static int timed_block (const void * at, uint64_t d)
{
  int me = symx_thread_self (); dl[me] = d;
  int fired = symx_block_timed (at);
  dl[me] = 0;
  if (fired)
  {
    for (int i = 0; i < 8; i++) if (dl[i] && dl[i] < d) symx_prune ();
    if (d > sx_now) sx_now = d;
  }
  return fired;
}
int sx_pthread_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  uint64_t d = (uint64_t) t->tv_sec * 1000000000u + (uint64_t) t->tv_nsec; int r = 0;
  CHECK (t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "valid time");
  pthread_mutex_unlock (m);
  if (d <= sx_now) { symx_yield (); r = ETIMEDOUT; } else if (timed_block (c, d)) r = ETIMEDOUT;
  pthread_mutex_lock (m);
  return r;
}
static int early;     // sleeps that may end before others get anywhere
int sx_nanosleep (const struct timespec * a, struct timespec * b) { char h; (void) b; if (early > 0 && symx_choice ("early", 2)) { early--; symx_yield (); return 0; } timed_block (&h, sx_now + (uint64_t) a->tv_sec * 1000000000u + (uint64_t) a->tv_nsec); return 0; }
static uint64_t t0;
static void until (uint64_t eighths) { char h; uint64_t d = t0 + eighths * (U / 8); if (d > sx_now) timed_block (&h, d); }
static uint64_t now_u (void) { return (sx_now - t0 + U / 4) / U; }

typedef struct { unsigned runs, active, maxactive, freed, rcb, acb; uint64_t when[16]; } rec_t;
static rec_t rec[3];
static unsigned seq, last[16];
static void freed (void * a) { rec_t * r = a; CHECK (r->active == 0, "argument freed only when not in use"); CHECK (r->freed == 0, "argument freed once"); r->freed++; }
#if MODE == 2 || MODE == 3
static unsigned dur; static iot_scheduler_t * sref; static iot_schedule_t * cref;
static void * slow (void * a)
{
  rec_t * r = a; CHECK (!r->freed, "not run after its argument was freed");
  if (r->runs < 16) r->when[r->runs] = now_u (); r->runs++; if (++r->active > r->maxactive) r->maxactive = r->active;
  if (dur) { char h; timed_block (&h, sx_now + dur * U + U / 2); } else symx_yield ();
  r->active--; CHECK (!r->freed, "argument valid until the function returns"); return NULL;
}
static int cb_remove;
static void * runcb (void * a) { rec_t * r = a; r->rcb++; if (cb_remove && r->rcb == 1) iot_schedule_remove (sref, cref); return NULL; }
static void * abortcb (void * a) { ((rec_t*) a)->acb++; return NULL; }
#endif
static void * fn (void * a);
static void * fn (void * a) { rec_t * r = a; CHECK (!r->freed, "not run after its argument was freed"); if (r->runs < 16) r->when[r->runs] = now_u (); r->runs++; if (seq < 16) last[seq++] = (unsigned) (r - rec); return NULL; }
#if MODE == 5
static iot_scheduler_t * sref; static iot_schedule_t * self, * other, * made; static unsigned op, once; static rec_t * const mrec = &rec[2];
static unsigned cb, cbs;   // where the operation is done: in the function, or a callback before it runs or when it cannot
static void operate (rec_t * r)
{
  switch (op)
  {
    case 0: { bool ok = iot_schedule_remove (sref, self); CHECK (ok || once, "a schedule can remove itself"); break; }
    case 1: iot_schedule_delete (sref, self); CHECK (!r->freed, "argument valid until the function returns"); break;
    case 2: CHECK (iot_schedule_add (sref, other), "a schedule can add another"); break;
    case 3: iot_schedule_delete (sref, other); CHECK (rec[1].freed == 1, "a schedule can delete another"); break;
    case 4: iot_scheduler_stop (sref); break;
    case 5: made = iot_schedule_create (sref, fn, freed, mrec, U, 0, 1, NULL, -1); CHECK (iot_schedule_add (sref, made), "a schedule can create another"); break;
    case 6: { bool ok = iot_schedule_remove (sref, self); CHECK (ok || once, "a schedule can remove itself"); CHECK (iot_schedule_add (sref, self) || once, "and add itself again"); break; }
    default: break;
  }
}
static void * act (void * a)
{
  rec_t * r = a; CHECK (!r->freed, "not run after its argument was freed");
  if (r->runs < 16) r->when[r->runs] = now_u (); r->runs++; r->active++;
  if (cb == 0 && r->runs == 1) operate (r);
  r->active--;
  return NULL;
}
static void * callback (void * a) { rec_t * r = a; CHECK (!r->freed, "callback not called after the argument was freed"); r->active++; if (++cbs == 1) operate (r); r->active--; return NULL; }
static void * filler (void * a) { return a; }
#endif
int main (void)
{
  LIVE0;
  t0 = sx_now;
  iot_scheduler_t * s = iot_scheduler_alloc (-1, -1, NULL);
#if MODE == 0      // up to three schedules of any delay, period and repeat count, executed synchronously
  iot_schedule_t * sc[NS]; unsigned delay[NS], period[NS], rep[NS];
  for (int i = 0; i < NS; i++)
  {
    delay[i] = (unsigned) symx_choice ("delay", 3); period[i] = 1 + (unsigned) symx_choice ("period", 2); rep[i] = (unsigned) symx_choice ("repeat", 3);
    sc[i] = iot_schedule_create (s, fn, freed, &rec[i], period[i] * U, delay[i] * U, rep[i], NULL, -1);
    CHECK (iot_schedule_set_sync (sc[i], true), "can be made synchronous");
    CHECK (iot_schedule_add (s, sc[i]) && !iot_schedule_add (s, sc[i]), "added once");
  }
  bool late = symx_choice ("start", 2);
  if (late) until (12);          // nothing runs until the scheduler is started; then what is overdue runs at once
  for (int i = 0; i < NS; i++) CHECK (rec[i].runs == 0, "nothing runs before the scheduler is started");
  iot_scheduler_start (s);
  until (36);
  for (int i = 0; i < NS; i++)
  {
    unsigned t = delay[i] + 0, k = 0, first = late && delay[i] < 2 ? 99 : delay[i];
    if (first == 99) { CHECK (rec[i].runs > 0 && rec[i].when[0] <= 2, "overdue schedule runs at once"); t = 99; }
    if (t != 99) for (; t < 5 && (rep[i] == 0 || k < rep[i]); k++, t += period[i]) CHECK (rec[i].runs > k && rec[i].when[k] == t, "run exactly when due, then every period");
    if (t != 99) CHECK (rec[i].runs == k, "run as often as asked");
    if (rep[i]) CHECK (rec[i].runs <= rep[i], "never run more often than asked");
    for (unsigned j = 1; j < rec[i].runs && j < 16; j++) CHECK (rec[i].when[j] >= rec[i].when[j - 1] + period[i], "a period passes between runs");
  }
  if (NS > 1 && delay[0] != delay[1] && seq > 1) CHECK (last[0] == (delay[0] < delay[1] ? 0 : 1), "the earlier schedule runs first");
#elif MODE == 1    // add, remove, reset, stop and start while time passes, against a reference
  unsigned period = 2; bool sch = false, run = false; unsigned due, runs = 0, cur = 0;   // in eighths of a unit; whatever happens at step i is offset by i eighths, so no two events coincide
  unsigned d0 = (unsigned) symx_choice ("delay", 3) * 2 + 1; if (d0 == 5) d0 = 60;
  iot_schedule_t * a = iot_schedule_create (s, fn, freed, &rec[0], period * U, d0 * U, 0, NULL, -1);
  iot_schedule_set_sync (a, true); due = d0 * 8;
  iot_schedule_t * o = NULL;
  if (OTHER) { o = iot_schedule_create (s, fn, freed, &rec[1], 100 * U, (OTHER == 1 ? 50 : 3) * U + U / 2, 0, NULL, -1); iot_schedule_set_sync (o, true); iot_schedule_add (s, o); }
  for (unsigned i = 1; i <= N; i++)
  {
    switch (symx_choice ("op", 6))
    {
      case 0: CHECK (iot_schedule_add (s, a) == !sch, "add succeeds exactly when not scheduled"); sch = true; break;
      case 1: CHECK (iot_schedule_remove (s, a) == sch, "remove succeeds exactly when scheduled"); sch = false; break;
      case 2: iot_schedule_reset (s, a, U); due = cur + (period + 1) * 8; break;
      case 3: iot_scheduler_start (s); run = true; break;
      case 4: iot_scheduler_stop (s); run = false; break;
      default: break;
    }
    unsigned end = i * 8 + i;
    if (sch && run && due < cur) { runs++; due = cur + period * 8; }
    while (sch && run && due < end) { runs++; due += period * 8; }
    cur = end; until (cur);
    CHECK (rec[0].runs == runs, "run exactly when due while scheduled and the scheduler runs");
  }
  if (sch && run) { unsigned end = cur + 29; while (due < end) { runs++; due += period * 8; } cur = end; until (cur); CHECK (rec[0].runs == runs, "run on time afterwards"); }
  if (symx_choice ("delete", 2)) { iot_schedule_delete (s, a); CHECK (rec[0].freed == 1, "deleting frees the argument"); until (cur + 33); CHECK (rec[0].runs == runs, "a deleted schedule never runs again"); }
#elif MODE == 4    // start times that coincide or nearly so, set by creation or reset
  iot_schedule_t * sc[3]; bool how = symx_choice ("reset", 2);
  for (int i = 0; i < 3; i++) { sc[i] = iot_schedule_create (s, fn, freed, &rec[i], how ? U : 100 * U, U - symx_choice ("nudge", 4), 1, NULL, -1); iot_schedule_set_sync (sc[i], true); }
  bool rev = symx_choice ("order", 2);
  for (int i = 0; i < 3; i++) CHECK (iot_schedule_add (s, sc[rev ? 2 - i : i]), "added");
  if (how) for (int i = 0; i < 3; i++) iot_schedule_reset (s, sc[i], 2 - (uint64_t) i);
  iot_scheduler_start (s);
  if (symx_choice ("remove", 2)) { unsigned k = (unsigned) symx_choice ("which", 3); CHECK (iot_schedule_remove (s, sc[k]), "removed"); until (20); for (unsigned i = 0; i < 3; i++) CHECK (rec[i].runs == (i != k), "the others run once, the removed one not"); }
  else { until (20); for (int i = 0; i < 3; i++) CHECK (rec[i].runs == 1 && rec[i].when[0] == 1, "schedules due at the same time all run"); }
#elif MODE == 2    // run by a pool of one thread or in threads of their own, lasting longer than the period or not
  symx_preempt (0);
  bool pooled = POOL, conc = symx_choice ("concurrent", 2); unsigned rep = (unsigned) symx_choice ("repeat", 3); dur = (unsigned) symx_choice ("duration", POOL == 0 || POOL == 3 ? 3 : POOL == 2 ? 2 : 1);
  bool full = POOL == 9; if (full) dur = (unsigned) symx_choice ("duration", 2);
  iot_threadpool_t * pool = pooled ? iot_threadpool_alloc (full ? 1 : POOL, full ? 1 : 0, -1, -1, NULL) : NULL;
  if (pool) iot_threadpool_start (pool);
  iot_schedule_t * a = iot_schedule_create (s, slow, freed, &rec[0], U, 0, rep, pool, -1);
  iot_schedule_set_concurrent (a, conc);
  CHECK (iot_schedule_set_sync (a, true) == !conc, "a concurrent schedule cannot be synchronous"); iot_schedule_set_sync (a, false);
  sref = s; cref = a;
  iot_schedule_add_run_callback (s, a, runcb); iot_schedule_add_abort_callback (s, a, abortcb);
  iot_schedule_add (s, a);
  iot_scheduler_start (s);
  until (8 * 3 + 2);
  unsigned n = rep ? rep : 4, want = conc ? n : (n + dur) / (dur + 1);     // due at 0, 1, 2, 3
  if (!full)
  {
    CHECK (rec[0].runs == want && rec[0].acb == 0 && iot_schedule_dropped (a) == 0, "run at each due time unless still running");
    for (unsigned i = 0; i < rec[0].runs; i++) CHECK (rec[0].when[i] == (conc ? i : i * (dur + 1)), "run when due");
  }
  else CHECK (rec[0].runs <= want && rec[0].rcb - rec[0].acb <= rec[0].runs + 1, "what is accepted by the pool is run");
  CHECK (conc || rec[0].maxactive <= 1, "runs of a schedule that is not concurrent never overlap");
  CHECK (rec[0].acb == iot_schedule_dropped (a), "every dropped run is counted and reported");
  if (!full || dur == 0) CHECK (rec[0].rcb == rec[0].runs + rec[0].acb, "announced before each run");
  CHECK (rec[0].freed == 0, "argument kept while the schedule exists");
  if (symx_choice ("delete", 2)) { iot_schedule_delete (s, a); CHECK (rec[0].active || rec[0].freed || full, "deleting frees the argument once no run uses it"); unsigned was = rec[0].runs; until (8 * 12); CHECK (rec[0].freed == 1 && rec[0].active == 0 && rec[0].runs <= was + (full && conc ? 1 : full), "a deleted schedule is not run again"); }
  iot_threadpool_free (pool);
#elif MODE == 3    // deleting, removing and freeing at any moment; threads that cannot be created
  symx_preempt (PRE);
  unsigned k = (unsigned) symx_choice ("kind", KINDS), rep = (unsigned) symx_choice ("repeat", 2);
  iot_threadpool_t * pool = k == 0 ? iot_threadpool_alloc (1, 0, -1, -1, NULL) : NULL;
  if (pool) iot_threadpool_start (pool);
  iot_schedule_t * a = iot_schedule_create (s, slow, freed, &rec[0], U, 0, rep, pool, -1);
  sref = s; cref = a;
  if (k == 2) { cb_remove = 1; iot_schedule_add_run_callback (s, a, runcb); sx_thread_fail = 2; }
  else if (k == 3) sx_thread_fail = 2;
  else if (k == 4) iot_schedule_set_sync (a, true);
  iot_schedule_add (s, a); iot_scheduler_start (s);
  if (symx_choice ("run", 2)) until (4);
  early = 2;
  sx_thread_fail = 0;
  switch (symx_choice ("then", 4))
  {
    case 0: iot_schedule_delete (s, a); break;
    case 1: iot_schedule_remove (s, a); iot_schedule_delete (s, a); break;
    case 2: iot_scheduler_stop (s); break;
    default: break;
  }
#elif MODE == 5    // functions that use the scheduler that runs them
  symx_preempt (PRE);
  unsigned how = (unsigned) symx_choice ("how", 3), rep = (unsigned) symx_choice ("repeat", 3); op = (unsigned) symx_choice ("op", 8); cb = CB; once = cb == 0 && how && rep == 1;   // no longer scheduled during its only run in a pool or thread
  if (cb == 2) how = 1;
  iot_threadpool_t * pool = how == 1 ? iot_threadpool_alloc (1, cb == 2, -1, -1, NULL) : NULL;
  if (cb == 2) iot_threadpool_add_work (pool, filler, NULL, -1);   // so no room is left
  else if (pool) iot_threadpool_start (pool);
  sref = s; self = iot_schedule_create (s, act, freed, &rec[0], U, 0, rep, pool, -1);
  other = iot_schedule_create (s, fn, freed, &rec[1], 100 * U, op == 2 ? 0 : U + U / 2, 1, NULL, -1);
  if (op != 2) iot_schedule_add (s, other);
  if (how == 0) iot_schedule_set_sync (self, true);
  if (cb == 1) iot_schedule_add_run_callback (s, self, callback);
  if (cb == 2) iot_schedule_add_abort_callback (s, self, callback);
  iot_schedule_add (s, self); iot_scheduler_start (s);
  until (8 * 3 + 4);
  if (cb == 1) CHECK (cbs == rec[0].runs, "the run callback precedes every run");
  if (cb == 2) { CHECK (rec[0].runs == 0, "not run when the pool is full"); if (op != 1) CHECK (iot_schedule_dropped (self) == cbs, "runs dropped are counted"); rec[0].runs = cbs; }
  unsigned n = op <= 1 ? 1 : rep ? rep : 4;
  if (op == 0 && how && rep == 1) n = rec[0].runs;
  if (op == 4) { CHECK (rec[0].runs == 1, "nothing runs while the scheduler is stopped"); iot_scheduler_start (s); until (8 * 4 + 5); if (cb == 2) rec[0].runs = cbs; CHECK (rep ? rec[0].runs == rep : rec[0].runs >= 2, "run again when started"); }
  else if (op != 6) CHECK (rec[0].runs == n, "run as often as asked, or until removed");
  else CHECK (rec[0].runs >= 1 && (rep == 0 || once || rec[0].runs <= rep + 1), "run again when added again");
  if (op == 1) CHECK (rec[0].freed == 1, "the argument of a schedule deleted by its function is freed");
  if (op == 2) CHECK (rec[1].runs == 1 && rec[1].when[0] == 0, "an added schedule runs at once when due");
  if (op == 3) CHECK (rec[1].runs == 0, "a deleted schedule never runs");
  if (op == 5) CHECK (rec[2].runs == 1 && rec[2].when[0] == 0, "a created schedule runs");
  if (op > 4) CHECK (rec[1].runs == 1, "others are not affected");
#endif
  iot_scheduler_free (s);
#if MODE == 5
  iot_threadpool_free (pool); until (80000);
  CHECK (rec[1].freed == 1 && rec[2].freed == (op == 5), "every argument is freed");
#endif
#if MODE == 3
  iot_threadpool_free (pool);
  until (80000);
#elif MODE == 2
  until (80000);
#endif
#if MODE == 0 || MODE == 4
  for (int i = 0; i < NS; i++) CHECK (rec[i].freed == 1, "every argument is freed once, with the scheduler at the latest");
#else
  CHECK (rec[0].freed == 1, "the argument is freed once, with the scheduler at the latest");
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
