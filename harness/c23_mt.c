// C23: a container used by several threads at once
#include "h.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/config.h"
#include "iot/logger.h"
#include <pthread.h>
#include <time.h>
static char o_, e_; FILE * const sxc_out = (FILE*) &o_, * const sxc_err = (FILE*) &e_;
int sx_fprintf (FILE * f, const char * fmt, ...) { (void) f; (void) fmt; return 1; }
static uint64_t ticks; int sx_clock_gettime (clockid_t c, struct timespec * t) { (void) c; ticks++; t->tv_sec = (time_t) ticks; t->tv_nsec = 0; return 0; }
int sx_nanosleep (const struct timespec * a, struct timespec * b) { (void) a; (void) b; symx_yield (); return 0; }
int sx_clock_nanosleep (clockid_t c, int f, const struct timespec * a, struct timespec * b) { (void) c; (void) f; (void) a; (void) b; symx_yield (); return 0; }
typedef struct { iot_component_t base; int id; pthread_t thread; bool joined; } comp_t;
static int made[3], freed[3], ran[3]; static bool timedout[3]; static bool threaded;
static void * runner (void * a) { comp_t * c = a; iot_component_set_running (&c->base); return NULL; }
static void c_start (iot_component_t * c) { comp_t * x = (comp_t*) c; if (threaded && x->id == 0) { iot_component_set_starting (c); pthread_create (&x->thread, NULL, runner, x); x->joined = true; } else iot_component_set_running (c); }
static void c_stop (iot_component_t * c) { comp_t * x = (comp_t*) c; if (x->joined) { pthread_join (x->thread, NULL); x->joined = false; } iot_component_set_stopped (c); }
static void c_run (iot_component_t * c, bool t) { comp_t * x = (comp_t*) c; ran[x->id]++; timedout[x->id] = t; }
static void c_free (iot_component_t * c) { comp_t * x = (comp_t*) c; freed[x->id]++; iot_component_fini (c); free (c); }
static iot_component_t * c_config (iot_container_t * cont, const iot_data_t * map);
static iot_component_factory_t fac = { "T", "Cat", c_config, c_free, NULL, NULL };
static iot_component_t * c_config (iot_container_t * cont, const iot_data_t * map)
{
  (void) cont; comp_t * x = calloc (1, sizeof (*x)); iot_component_init (&x->base, &fac, c_start, c_stop); iot_component_set_running_callback (&x->base, c_run);
  x->id = (int) iot_data_string_map_get_i64 (map, "Id", 0); made[x->id]++; return &x->base;
}
static iot_container_t * cont;
static void add (const char * n, int id) { char c[] = "{\"Id\":?}"; c[6] = (char) ('0' + id); iot_container_add_component (cont, "T", n, c); }
#if MODE == 0
static int dels;
static void step (unsigned op)
{
  switch (op)
  {
    case 0: { iot_component_t * c = iot_container_find_component (cont, "a"); CHECK (c && ((comp_t*) c)->id == 0, "a component that stays is found"); CHECK (iot_data_string_map_get_i64 (c->config, "Id", 9) == 0, "with its configuration"); break; }
    case 1: { iot_data_t * d = iot_container_component_read (cont, "a"); CHECK (d && !strcmp (iot_data_string_map_get_string (d, "name"), "a"), "and read"); iot_data_free (d); break; }
    case 2: { iot_data_t * d = iot_container_component_read (cont, "b"); if (d) CHECK (!strcmp (iot_data_string_map_get_string (d, "name"), "b") && !strcmp (iot_data_string_map_get_string (d, "type"), "T"), "one being deleted is read whole or not at all"); else CHECK (dels > 0, "there until deleted"); iot_data_free (d); break; }
    case 3:
    {
      int da = 0, db = 0; iot_data_t * l = iot_container_list_components (cont, "Cat"); iot_data_list_iter_t it; iot_data_list_iter (l, &it);
      while (iot_data_list_iter_next (&it)) { const char * n = iot_data_string_map_get_string (iot_data_list_iter_value (&it), "name"); if (!strcmp (n, "a")) da++; else if (!strcmp (n, "b")) db++; else symx_fail ("nothing else"); }
      CHECK (da == 1 && (db == 1 || (db == 0 && dels > 0)), "listed once"); iot_data_free (l); break;
    }
    case 4: dels++; iot_container_delete_component (cont, "b"); CHECK (freed[1] == 1, "deleted"); CHECK (iot_container_find_component (cont, "b") == NULL, "and not found any more"); break;
    default: { iot_component_t * c = iot_container_find_component (cont, "a"); iot_component_set_running (c); iot_component_set_stopped (c); break; }
  }
}
static void * worker (void * a) { for (int i = 0; i < N; i++) step ((unsigned) symx_choice ("op", 6)); (void) a; return NULL; }
#elif MODE == 3
static iot_component_factory_t fac2 = { "U", "Dog", c_config, c_free, NULL, NULL }, fac3 = { "V", "Dog", c_config, c_free, NULL, NULL };
static int did[2][5];
static void * worker (void * a)
{
  int me = *(int*) a;
  for (int i = 0; i < N; i++)
  {
    unsigned op = (unsigned) symx_choice ("op", 4); did[me][op]++;
    switch (op)
    {
      case 0: iot_component_factory_add (&fac2); CHECK (iot_component_factory_find ("U") == &fac2, "a factory added is found"); break;
      case 1: iot_component_factory_add (&fac3); CHECK (iot_component_factory_find ("V") == &fac3, "a factory added is found"); break;
      case 2: { char n[2] = { (char) ('p' + me), 0 }; iot_container_t * o = iot_container_alloc (n); iot_container_add_component (o, "T", "y", "{\"Id\":2}"); CHECK (iot_container_find_component (o, "y") && !iot_container_find_component (cont, "y"), "a component belongs to its container"); iot_container_free (o); break; }
      default: CHECK (iot_component_factory_find ("T") == &fac && !iot_component_factory_find ("W"), "what stays is found"); break;
    }
  }
  return NULL;
}
#elif MODE == 4
static void * worker (void * a) { int me = *(int*) a; add (me ? "x" : "y", me); CHECK (iot_container_find_component (cont, me ? "x" : "y") != NULL, "KF:container-add-race a component added while another thread adds one is found"); return NULL; }
#elif MODE == 2
static char * load (const char * n, const char * u) { (void) u; return strdup (strcmp (n, "main") ? "{\"Id\":2}" : "{\"c\":\"T\"}"); }
static iot_component_t * got[2];
static void * worker (void * a) { got[*(int*) a] = iot_container_find_component (cont, "c"); return NULL; }
#endif
int main (void)
{
  iot_component_factory_add (&fac); symx_preempt (PRE);
  LIVE0;
  cont = iot_container_alloc ("main");
#if MODE == 0      // finding, reading, listing and deleting at the same time
  add ("a", 0); add ("b", 1);
  pthread_t t; pthread_create (&t, NULL, worker, NULL); worker (NULL); pthread_join (t, NULL);
  iot_container_free (cont); CHECK (freed[0] == 1 && freed[1] == 1, "each freed once");
#elif MODE == 1    // a component that becomes running in a thread of its own while the container waits for it
  threaded = true; add ("a", 0); add ("b", 1);
  iot_container_start (cont);
  for (int i = 0; i < 2; i++) CHECK (ran[i] == 1, "told once that components run");
  CHECK (timedout[0] == timedout[1], "the same for all"); if (!timedout[0]) CHECK (((comp_t*) iot_container_find_component (cont, "a"))->base.state == IOT_COMPONENT_RUNNING, "running when reported so");
  iot_container_stop (cont); iot_container_free (cont); CHECK (freed[0] == 1 && freed[1] == 1, "each freed once");
#elif MODE == 3    // registering factories, using containers of their own at the same time
  pthread_t t; int id[2] = { 0, 1 }; pthread_create (&t, NULL, worker, &id[1]); worker (&id[0]); pthread_join (t, NULL);
  int n = 0, u = 0, v = 0; for (const iot_component_factory_t * f = fac3.next ? &fac3 : NULL; f && n < 9; f = f->next) n++;
  CHECK (n < 9, "factories form a list"); n = 0; for (const iot_component_factory_t * f = fac2.next ? &fac2 : NULL; f && n < 9; f = f->next) n++; CHECK (n < 9, "factories form a list"); (void) u; (void) v;
  CHECK ((iot_component_factory_find ("U") != NULL) == (did[0][0] + did[1][0] > 0) && (iot_component_factory_find ("V") != NULL) == (did[0][1] + did[1][1] > 0) && iot_component_factory_find ("T") == &fac, "every factory added, and no other, is found");
  iot_container_free (cont); CHECK (made[2] == did[0][2] + did[1][2] && freed[2] == made[2], "each freed once");
#elif MODE == 4    // components added to the same container at the same time
  pthread_t t; int id[2] = { 0, 1 }; pthread_create (&t, NULL, worker, &id[1]); worker (&id[0]); pthread_join (t, NULL);
  CHECK (iot_container_find_component (cont, "x") && iot_container_find_component (cont, "y"), "KF:container-add-race components added by two threads at the same time are found");
  iot_container_free (cont); CHECK (made[0] == 1 && made[1] == 1 && freed[0] == 1 && freed[1] == 1, "each freed once");
#else              // a component loaded on demand by two threads at once
  static iot_container_config_t cfg = { load, "uri", NULL }; iot_container_config (&cfg);
  pthread_t t; int id[2] = { 0, 1 }; pthread_create (&t, NULL, worker, &id[1]); worker (&id[0]); pthread_join (t, NULL);
  CHECK (made[2] == 1 && got[0] && got[1] == got[0], "KF:container-load-race a component not yet loaded is found by two threads at the same time");
  iot_container_free (cont); CHECK (freed[2] == 1, "freed once");
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
