// C22: component state machine, waiters, references and reconfiguration
#include "h.h"
#include "iot/container.h"
#include "iot/component.h"
#include <pthread.h>
extern int sx_spurious;
static iot_component_t c;
static void nop (iot_component_t * x) { (void) x; }
static const iot_container_config_t * conf;
const iot_container_config_t * iot_container_get_config (void) { return conf; }
static bool set (unsigned op)
{
  switch (op) { case 0: return iot_component_set_stopped (&c); case 1: return iot_component_set_running (&c); case 2: return iot_component_set_starting (&c); default: return iot_component_set_deleted (&c); }
}
static const unsigned tgt[] = { IOT_COMPONENT_STOPPED, IOT_COMPONENT_RUNNING, IOT_COMPONENT_STARTING, IOT_COMPONENT_DELETED };
static bool valid (unsigned from, unsigned op) { return op == 3 ? from != IOT_COMPONENT_RUNNING : from != IOT_COMPONENT_DELETED; }
#if MODE == 1 || MODE == 4
static unsigned mask[2], seen[2]; static bool lk[2], in_lock;
static void * waiter (void * a)
{
  unsigned i = (unsigned) (uintptr_t) a;
  if (lk[i])
  {
    unsigned s = iot_component_wait_and_lock (&c, mask[i]);
    CHECK (!in_lock, "only one holds the lock"); in_lock = true;
    CHECK ((s & mask[i]) && c.state == s, "the state waited for holds once locked");
    symx_yield ();
    CHECK (c.state == s, "the state does not change while locked"); in_lock = false;
    CHECK (iot_component_unlock (&c) == s, "unlock returns the state that held"); seen[i] = s;
  }
  else { seen[i] = iot_component_wait (&c, mask[i]); CHECK (seen[i] & mask[i], "waiting returns in one of the states waited for"); }
  return NULL;
}
#endif
#if MODE == 4
static unsigned changed[4], oks[4];
static void * setter (void * a) { unsigned op = (unsigned) (uintptr_t) a; if (set (op)) oks[op]++; return NULL; }
#endif
#if MODE == 2
static int last; static unsigned k;
static void * user (void * a) { (void) a; for (unsigned i = 0; i < k; i++) { iot_component_add_ref (&c); if (iot_component_dec_ref (&c)) last += 100; } if (iot_component_dec_ref (&c)) last++; return NULL; }
#endif
#if MODE == 3
static int recs, saves; static bool accept; static iot_container_t * cc = (iot_container_t*) &cc; static const iot_data_t * gotmap; static char * saved;
static bool reconf (iot_component_t * x, iot_container_t * t, const iot_data_t * m) { CHECK (x == &c && t == cc && m == gotmap, "reconfigured with the configuration given"); CHECK (!saves, "before saving"); recs++; return accept; }
static bool save (const char * n, const char * u, const char * s) { CHECK (!strcmp (n, "comp") && !strcmp (u, "uri"), "saved under its name"); saves++; saved = strdup (s); return true; }
static iot_data_t * mk (const char * what, unsigned n, int64_t v) { iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); static const char * keys[] = { "a", "b", "c" }; for (unsigned i = 0; i < n; i++) if (symx_choice (what, 2)) iot_data_string_map_add (m, keys[i], iot_data_alloc_i64 (v + i)); return m; }
#endif
int main (void)
{
#if MODE == 0
  LIVE0;
  memset (&c, 0, sizeof (c)); iot_component_init (&c, NULL, nop, nop);
  unsigned s = IOT_COMPONENT_INITIAL;
  for (int i = 0; i < N; i++)
  {
    unsigned op = (unsigned) symx_choice ("op", 5);
    if (op < 4)
    {
      bool ch = set (op);
      CHECK (ch == (valid (s, op) && tgt[op] != s), "reports exactly whether the state changed");
      if (valid (s, op)) s = tgt[op];
    }
    else
    {
      CHECK (iot_component_lock (&c) == s, "lock returns the state"); CHECK (iot_component_unlock (&c) == s, "unlock returns the state");
      if (s) { unsigned m = IN_U32 ("mask"); ASSUME (m & s); CHECK (iot_component_wait (&c, m) == s, "waiting for the current state returns it at once"); CHECK (iot_component_wait_and_lock (&c, m) == s, "and locks"); iot_component_unlock (&c); }
    }
    CHECK (c.state == s, "state");
  }
  unsigned q = IN_U32 ("state"); const char * n = iot_component_state_name ((iot_component_state_t) q);
  CHECK (strcmp (n, q == 0 ? "Initial" : q == 1 ? "Stopped" : q == 2 ? "Running" : q == 4 ? "Deleted" : q == 8 ? "Starting" : "Unknown") == 0, "state name");
  iot_component_fini (&c);
  symx_cover ("end");
  LIVE_END ("no leak");
#elif MODE == 1     // waiters return however the transitions interleave
  symx_preempt (PRE); sx_spurious = 1;
  memset (&c, 0, sizeof (c)); iot_component_init (&c, NULL, nop, nop);
  pthread_t t[2]; unsigned s = 0, ops[N];
  for (int i = 0; i < N; i++) { ops[i] = (unsigned) symx_choice ("op", 4); if (valid (s, ops[i])) s = tgt[ops[i]]; }
  for (unsigned i = 0; i < 2; i++) { mask[i] = (unsigned) symx_choice ("mask", 16); if (!(mask[i] & s)) symx_prune (); if (i && mask[0] < mask[1]) symx_prune (); lk[i] = symx_choice ("lock", 2); pthread_create (&t[i], NULL, waiter, (void*) (uintptr_t) i); }
  for (int i = 0; i < N; i++) set (ops[i]);
  for (int i = 0; i < 2; i++) { pthread_join (t[i], NULL); CHECK (seen[i] & mask[i], "woken"); }
  CHECK (c.state == s, "final state");
  iot_component_fini (&c); symx_cover ("end");
#elif MODE == 4     // racing transitions: each change is reported by exactly one caller
  symx_preempt (PRE);
  memset (&c, 0, sizeof (c)); iot_component_init (&c, NULL, nop, nop);
  pthread_t t[3]; unsigned o[3]; for (int i = 0; i < 3; i++) { o[i] = (unsigned) symx_choice ("op", 4); if (i && o[i] < o[i - 1]) symx_prune (); }
  mask[0] = 15; lk[0] = true;
  for (int i = 0; i < 2; i++) pthread_create (&t[i], NULL, setter, (void*) (uintptr_t) o[i]);
  pthread_create (&t[2], NULL, waiter, 0);
  setter ((void*) (uintptr_t) o[2]);
  for (int i = 0; i < 3; i++) pthread_join (t[i], NULL);
  bool run = o[0] == 1 || o[1] == 1 || o[2] == 1, del = o[2] == 3;
  if (o[0] == o[2]) CHECK (oks[o[0]] == 1, "of equal transitions exactly one is reported as the change");
  if (del && !run) CHECK (c.state == IOT_COMPONENT_DELETED && oks[3] == 1, "deletion happens once and is final");
  if (oks[3]) CHECK (oks[3] == 1 && c.state == IOT_COMPONENT_DELETED, "nothing leaves the deleted state"); else CHECK (c.state != IOT_COMPONENT_DELETED, "reported");
  (void) changed; iot_component_fini (&c); symx_cover ("end");
#elif MODE == 2     // references
  symx_preempt (PRE);
  memset (&c, 0, sizeof (c)); iot_component_init (&c, NULL, nop, nop);
  k = (unsigned) symx_choice ("pairs", 2); pthread_t t[2];
  for (int i = 0; i < 2; i++) { iot_component_add_ref (&c); pthread_create (&t[i], NULL, user, NULL); }
  user (NULL);
  for (int i = 0; i < 2; i++) pthread_join (t[i], NULL);
  CHECK (last == 1, "exactly the last release reports that no reference is left");
  iot_component_fini (&c); symx_cover ("end");
#else               // reconfiguration and reading
  LIVE0;
  static iot_component_factory_t f = { .type = "T" }; static iot_container_config_t cf = { .uri = "uri" };
  *(const char**) &f.category = symx_choice ("category", 2) ? "Cat" : NULL;
  bool has = symx_choice ("reconfig", 2), sv = symx_choice ("save", 2); accept = symx_choice ("accept", 2);
  f.reconfig_fn = has ? reconf : NULL; cf.save = sv ? save : NULL; conf = &cf;
  memset (&c, 0, sizeof (c)); iot_component_init (&c, &f, nop, nop); c.name = strdup ("comp"); c.config = mk ("has", 2, 0);
  iot_data_t * old = iot_data_copy (c.config), * m = mk ("given", 3, 10), * mc = iot_data_copy (m); gotmap = m;
  unsigned st = (unsigned) symx_choice ("state", 4); set (st);
  bool ok = iot_component_reconfig (&c, cc, m);
  CHECK (ok == (!has || accept) && recs == has, "reconfigured exactly when the component accepts");
  if (ok) for (char k[2] = "a"; *k <= 'c'; (*k)++) { const iot_data_t * v = iot_data_string_map_get (m, k); if (v) iot_data_map_add (old, STR (k), iot_data_alloc_i64 (iot_data_i64 (v))); }
  CHECK (iot_data_equal (c.config, old), "configuration merged exactly when accepted"); CHECK (iot_data_equal (m, mc), "what was given is not changed");
  CHECK (saves == (ok && sv), "saved exactly when accepted");
  if (saves) { iot_data_t * j = iot_data_from_json (saved); CHECK (iot_data_equal (j, old), "the merged configuration is saved"); iot_data_free (j); free (saved); }
  iot_data_t * r = iot_component_read (&c);
  CHECK (iot_data_map_size (r) == (f.category ? 5 : 4), "description");
  CHECK (!strcmp (iot_data_string_map_get_string (r, "name"), "comp") && !strcmp (iot_data_string_map_get_string (r, "type"), "T"), "name and type");
  CHECK (!strcmp (iot_data_string_map_get_string (r, "state"), iot_component_state_name (tgt[st])), "state"); CHECK (iot_data_equal (iot_data_string_map_get (r, "config"), old), "configuration");
  const char * cat = iot_data_string_map_get_string (r, "category"); CHECK (f.category ? cat && !strcmp (cat, "Cat") : !cat, "category");
  iot_data_free (r); iot_data_free (m); iot_data_free (mc); iot_data_free (old); iot_component_fini (&c);
  symx_cover ("end");
  LIVE_END ("no leak");
#endif
}
