// C23: container, factories, start and stop order, configuration and loading
#include "h.h"
#include "iot/container.h"
#include "iot/component.h"
#include "iot/config.h"
#include "iot/logger.h"
#include <stdarg.h>
#include <time.h>
static char o_, e_; FILE * const sxc_out = (FILE*) &o_, * const sxc_err = (FILE*) &e_;
static int logged;
int sx_fprintf (FILE * f, const char * fmt, ...) { (void) f; (void) fmt; logged++; return 1; }
int sx_prctl (int op, ...) { (void) op; return 0; }
char * sx_getenv (const char * n) { return strcmp (n, "SET") ? NULL : (char*) "7"; }
// test component
#define NC 5
typedef struct { iot_component_t base; int id; iot_component_t * ref; } comp_t;
enum { STARTING, START, RUN, STOPPING, STOP, FREED };
static struct { int ev, id; bool tmo; } ev[64]; static int evs;
static void rec (int e, comp_t * c, bool t) { CHECK (evs < 64, "bounded"); ev[evs].ev = e; ev[evs].id = c->id; ev[evs++].tmo = t; }
static bool slow[NC], refuse; static int made[NC], alive; static comp_t * inst[NC]; static bool callbacks; static bool strict;
static iot_component_factory_t fac[3];
static void c_start (iot_component_t * c) { comp_t * x = (comp_t*) c; rec (START, x, 0); if (!slow[x->id]) iot_component_set_running (c); else iot_component_set_starting (c); }
static void c_stop (iot_component_t * c) { rec (STOP, (comp_t*) c, 0); iot_component_set_stopped (c); }
static void c_run (iot_component_t * c, bool t) { rec (RUN, (comp_t*) c, t); }
static void c_starting (iot_component_t * c) { rec (STARTING, (comp_t*) c, 0); }
static void c_stopping (iot_component_t * c) { rec (STOPPING, (comp_t*) c, 0); }
static void c_free (iot_component_t * c) { comp_t * x = (comp_t*) c; rec (FREED, x, 0); CHECK (x == inst[x->id] || made[x->id] > 1, "a live component is freed"); CHECK (c->state == IOT_COMPONENT_STOPPED, "stopped before it is freed"); inst[x->id] = NULL; alive--; iot_component_fini (c); free (c); }
static comp_t * make (iot_component_start_fn_t s, const iot_component_factory_t * f, int id)
{
  comp_t * x = calloc (1, sizeof (*x)); iot_component_init (&x->base, f, s, c_stop); x->id = id;
  if (callbacks) { iot_component_set_running_callback (&x->base, c_run); iot_component_set_starting_callback (&x->base, c_starting); iot_component_set_stopping_callback (&x->base, c_stopping); }
  made[id]++; alive++; inst[id] = x; return x;
}
static iot_component_t * c_config (iot_container_t * cont, const iot_data_t * map)
{
  int id = (int) iot_data_string_map_get_i64 (map, "Id", 0); iot_component_t * r = NULL; const char * rn = iot_data_string_map_get_string (map, "Ref");
  if (rn) { r = iot_container_find_component (cont, rn); if (!r && strict) return NULL; }
  if (refuse) return NULL;
  comp_t * x = make (c_start, &fac[0], id); x->ref = r; return &x->base;
}
static iot_component_factory_t fac[3] = { { "T", "Cat", c_config, c_free, NULL, NULL }, { "U", "Other", c_config, c_free, NULL, NULL }, { "T", "Dup", c_config, c_free, NULL, NULL } };
static iot_container_t * cont;
static const char * nm[] = { "a", "b", "c", "d", "e" };
#if MODE == 1
static int ref[3], ctype[3]; static int loads; static unsigned bad;
static char * load (const char * n, const char * u)
{
  static const char * types[] = { "\"T\"", "\"U\"", "\"None\"", "3" };
  CHECK (!strcmp (u, "uri"), "from the configured place"); loads++;
  char b[160] = "";
  if (!strcmp (n, "main"))
  {
    if (bad == 1) return NULL; if (bad == 2) return strdup ("[1]"); if (bad == 3) return strdup ("{\"a\": ${UNSET}}");
    strcat (b, "{"); for (int i = 0; i < 3; i++) { if (i) strcat (b, ","); strcat (b, "\""); strcat (b, nm[i]); strcat (b, "\":"); strcat (b, types[ctype[i]]); } strcat (b, "}");
    return strdup (b);
  }
  for (int i = 0; i < 3; i++) if (!strcmp (n, nm[i]))
  {
    strcat (b, "{\"Id\":"); b[6] = (char) ('0' + i); b[7] = 0;
    if (ref[i] >= 0) { strcat (b, ",\"Ref\":\""); strcat (b, nm[ref[i]]); strcat (b, "\""); }
    strcat (b, "}"); return strdup (b);
  }
  return NULL;
}
#endif
#if MODE == 2
static unsigned dl; static int opens, closes; static char handle;
static iot_component_factory_t dynf = { "Dyn", "Cat", c_config, c_free, NULL, NULL };
static const iot_component_factory_t * get_factory (void) { return &dynf; }
void * sx_dlopen (const char * l, int f) { (void) f; CHECK (!strcmp (l, "lib.so"), "library named"); if (dl == 1) return NULL; opens++; return &handle; }
void * sx_dlsym (void * h, const char * s) { CHECK (h == &handle && !strcmp (s, "fact"), "factory named"); return dl == 2 ? NULL : (void*) get_factory; }
int sx_dlclose (void * h) { CHECK (h == &handle, "handle"); closes++; return 0; }
char * sx_dlerror (void) { return (char*) "e"; }
#endif
int main (void)
{
  iot_component_factory_add (&fac[0]); iot_component_factory_add (&fac[1]); iot_component_factory_add (&fac[2]); iot_component_factory_add (&fac[0]);
  CHECK (iot_component_factory_find ("T") == &fac[0] && iot_component_factory_find ("U") == &fac[1] && iot_component_factory_find ("V") == NULL, "factories are found by type, the first of a type");
  LIVE0;
  callbacks = MODE == 1 || symx_choice ("callbacks", 2);
#if MODE == 0
  if (!callbacks) *(const char**) &fac[1].category = NULL;
#endif
#if MODE == 0      // histories
  cont = iot_container_alloc ("main");
  int pres[NC], n = 0; bool running = false; iot_data_t * kept = NULL;
  if (symx_choice ("filled", 2)) for (int i = 0; i < 3; i++) { char c[] = "{\"Id\":?}"; c[6] = (char) ('0' + i); iot_container_add_component (cont, i == 1 ? "U" : "T", nm[i], c); pres[n++] = i; CHECK (made[i] == 1, "created"); }
  for (int s = 0; s < N; s++)
  {
    int first = evs;
    switch (symx_choice ("op", 5))
    {
      case 0:
      {
        int id = (int) symx_choice ("id", NC); for (int i = 0; i < n; i++) if (pres[i] == id) symx_prune ();
        unsigned how = (unsigned) symx_choice ("how", 6); static const char * cf[] = { "{\"Id\":?}", "{\"Id\":?}", "{\"Id\":?}", "[", "{\"Id\":${NO}}", "{\"Id\":?,\"x\":${SET}}" }; char c[40]; strcpy (c, cf[how]); if (c[6] == '?') c[6] = (char) ('0' + id);
        bool u = id == 1; refuse = how == 2; int before = made[id];
        iot_container_add_component (cont, how == 1 ? "None" : u ? "U" : "T", nm[id], c); refuse = false;
        bool ok = how == 0 || how == 5; CHECK (made[id] == before + ok, "created exactly when the type is known, the configuration valid and the component accepts it");
        if (ok) { pres[n++] = id; CHECK (iot_data_string_map_get_i64 (inst[id]->base.config, "x", 0) == (how == 5 ? 7 : 0), "with its configuration"); CHECK (!strcmp (inst[id]->base.name, nm[id]) && inst[id]->base.factory == &fac[u], "name and factory"); }
        break;
      }
      case 1:
      {
        int id = (int) symx_choice ("id", NC), at = -1; for (int i = 0; i < n; i++) if (pres[i] == id) at = i;
        iot_container_delete_component (cont, nm[id]);
        CHECK ((at >= 0) == (evs > first && ev[evs - 1].ev == FREED && ev[evs - 1].id == id), "freed exactly when present"); if (at >= 0) { CHECK (evs - first <= 2, "and nothing else"); for (int i = at; i < n - 1; i++) pres[i] = pres[i + 1]; n--; } else CHECK (evs == first, "otherwise nothing");
        break;
      }
      case 2:
      {
        for (int i = 0; i < n; i++) slow[pres[i]] = false; bool sl = n && symx_choice ("slow", 2); if (sl) slow[pres[symx_choice ("which", (unsigned) n)]] = true;
        iot_container_start (cont); running = true; int k = first;
        if (callbacks) for (int i = 0; i < n; i++, k++) CHECK (ev[k].ev == STARTING && ev[k].id == pres[i], "starting callbacks before any start, in order of creation");
        for (int i = 0; i < n; i++, k++) CHECK (ev[k].ev == START && ev[k].id == pres[i], "started in order of creation");
        if (callbacks) for (int i = 0; i < n; i++, k++) CHECK (ev[k].ev == RUN && ev[k].id == pres[i] && ev[k].tmo == sl, "running callbacks after all are started, telling whether all run");
        CHECK (k == evs, "each once"); break;
      }
      case 3:
      {
        iot_container_stop (cont); running = false; int k = first;
        if (callbacks) for (int i = n; i-- > 0; k++) CHECK (ev[k].ev == STOPPING && ev[k].id == pres[i], "stopping callbacks before any stop, in reverse order");
        for (int i = n; i-- > 0; k++) CHECK (ev[k].ev == STOP && ev[k].id == pres[i], "stopped in reverse order of creation");
        CHECK (k == evs, "each once"); break;
      }
      default:
      {
        static const char * cats[] = { NULL, "Cat", "Other", "x" }; const char * cat = cats[symx_choice ("category", 4)];
        iot_data_t * l = iot_container_list_components (cont, cat); iot_data_list_iter_t it; iot_data_list_iter (l, &it); unsigned want = 0, got = 0, seen = 0;
        for (int i = 0; i < n; i++) if (!cat || (pres[i] == 1 && !callbacks ? 0 : !strcmp (cat, pres[i] == 1 ? "Other" : "Cat"))) want |= 1u << pres[i];
        while (iot_data_list_iter_next (&it)) { const iot_data_t * d = iot_data_list_iter_value (&it); const char * x = iot_data_string_map_get_string (d, "name"); got++; for (int i = 0; i < NC; i++) if (!strcmp (x, nm[i])) { CHECK (!(seen & 1u << i), "once"); seen |= 1u << i; } }
        CHECK (seen == want && got == (unsigned) __builtin_popcount (want), "lists exactly the components of the category"); iot_data_free (l);
      }
    }
    for (int i = 0; i < NC; i++)
    {
      bool p = false; for (int k = 0; k < n; k++) p |= pres[k] == i;
      CHECK (iot_container_find_component (cont, nm[i]) == (p ? &inst[i]->base : NULL), "found exactly when present");
    }
    iot_data_t * d = iot_container_component_read (cont, "b"); bool p = false; for (int k = 0; k < n; k++) p |= pres[k] == 1; CHECK ((d != NULL) == p, "read exactly when present"); if (d) CHECK (!strcmp (iot_data_string_map_get_string (d, "name"), "b") && !strcmp (iot_data_string_map_get_string (d, "type"), "U"), "description"); if (d && !kept) kept = d; else iot_data_free (d);
  }
  (void) running; iot_container_free (cont);
  CHECK (alive == 0, "freeing the container frees all its components");
  if (kept) { CHECK (!strcmp (iot_data_string_map_get_string (kept, "name"), "b") && !strcmp (iot_data_string_map_get_string (kept, "type"), "U"), "a description stays as read after its component is gone"); iot_data_free (kept); }
#elif MODE == 1    // configuration with references
  static iot_container_config_t cfg = { load, "uri", NULL }; iot_container_config (&cfg);
  cont = iot_container_alloc ("main"); bad = (unsigned) symx_choice ("bad", 4); bool lazy = symx_choice ("lazy", 2); strict = !lazy && symx_choice ("strict", 2);
  int order[3]; bool ok[3], cyc = false;
  for (int i = 0; i < 3; i++) { ref[i] = bad ? -1 : (int) symx_choice ("ref", i == 2 || WIDE ? 5 : 4) - 1; ctype[i] = bad ? 0 : i == 2 || WIDE ? (int) symx_choice ("type", 4) : 2 * (int) symx_choice ("type", 2); }
  for (int i = 0; i < 3; i++) { int k = i, c = 0; while (k >= 0 && k < 3 && ++c < 5) k = ref[k]; if (c >= 5) cyc = true; }
  if (!lazy) CHECK (iot_container_init (cont) == !bad, "initialised exactly when the configuration is valid");
  else for (int i = 0; i < 3; i++) { iot_component_t * c = iot_container_find_component (cont, nm[i]); if (!cyc && !bad && ctype[i] < 2 && ref[i] < 0) CHECK (c == &inst[i]->base && c, "loaded on demand"); }
  if (bad) CHECK (alive == 0, "nothing is created");
  else if (!cyc) for (int i = 0; i < 3; i++)
  {
    bool e = true, full = true; for (int k = i; k >= 0; k = ref[k]) { if (k == 3) { full = false; break; } if (ctype[k] > 1) { if (k == i) e = false; full = false; break; } }
    if (strict && !full) e = false;
    CHECK (made[i] == e, "each component with a known type is created exactly once"); 
    if (e) { CHECK (iot_container_find_component (cont, nm[i]) == &inst[i]->base, "and found"); if (ref[i] >= 0 && ref[i] < 3) CHECK (inst[i]->ref == (inst[ref[i]] ? &inst[ref[i]]->base : NULL), "with the component it refers to, created before"); else CHECK (!inst[i]->ref, "no reference"); }
  }
  else symx_cover ("cycle");
  evs = 0; callbacks = false; if (!cyc) { iot_container_start (cont); int k = 0; for (int i = 0; i < evs; i++) if (ev[i].ev == START) { order[k++] = ev[i].id; int r = ref[ev[i].id]; if (r >= 0 && r < 3 && inst[r]) { bool b = false; for (int j = 0; j < k; j++) b |= order[j] == r; CHECK (b, "a component starts after the one it refers to"); } } }
  evs = 0; iot_container_free (cont); CHECK (alive == 0, "all freed");
#else              // dynamic loading
  dl = (unsigned) symx_choice ("dl", 4); bool lib = symx_choice ("library", 2), fc = symx_choice ("factory", 2);
  char c[120] = "{\"Id\":2"; if (lib) strcat (c, ",\"Library\":\"lib.so\""); if (fc) strcat (c, ",\"Factory\":\"fact\""); strcat (c, "}");
  cont = iot_container_alloc ("main");
  iot_container_add_component (cont, "Dyn", "c", c);
  bool ok = lib && fc && dl != 1 && dl != 2;
  CHECK (made[2] == ok, "created exactly when library and factory are found"); CHECK (closes == (lib && fc && dl == 2), "a library without the factory is closed again");
  CHECK (iot_component_factory_find ("Dyn") == (ok ? &dynf : NULL), "the factory loaded is added");
  if (ok) { int o = opens; char e[] = "{\"Id\":3}"; iot_container_add_component (cont, "Dyn", "d", e); CHECK (made[3] == 1 && opens == o, "and used from then on"); }
  iot_container_free (cont); CHECK (alive == 0, "all freed");
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
