// C24: configuration substitution and typed access
#include "h.h"
#include "iot/config.h"
#include "iot/container.h"
static iot_logger_t dfl, own; static int logs_dfl, logs_own;
iot_logger_t * iot_logger_default (void) { return &dfl; }
void iot_log__log (iot_logger_t * l, iot_loglevel_t level, ...) { CHECK (level == IOT_LOG_ERROR, "failures are logged as errors"); if (l == &dfl) logs_dfl++; else { CHECK (l == &own, "logged to the logger given"); logs_own++; } }
static iot_component_t comp; static bool comp_there; static int finds;
iot_component_t * iot_container_find_component (iot_container_t * c, const char * n) { (void) c; finds++; return comp_there && !strcmp (n, "cc") ? &comp : NULL; }
static const char * env_a; static char * env_long;
static int gets;
char * sx_getenv (const char * n)
{
  gets++;
  CHECK (strlen (n) < 64, "variable name within its buffer");
  if (!strcmp (n, "A")) return (char*) env_a;
  if (env_long && !strcmp (n, env_long)) return (char*) "L";
  if (!strcmp (n, "AA")) return (char*) "";
  return NULL;
}
static iot_logger_t * lg;
static void logged (int n, const char * m) { CHECK ((lg ? logs_own : logs_dfl) == n && (lg ? logs_dfl : logs_own) == 0, m); }
static const iot_data_t * value;
int main (void)
{
  LIVE0;
  dfl.level = own.level = IOT_LOG_ERROR;
  lg = symx_choice ("logger", 2) ? &own : NULL;
#if MODE == 0    // substitution against a reference
  char * t = malloc (N + 1); symx_bytes ("text", t, N); t[N] = 0;
  for (int i = 0; i < N; i++)
  {
    static const char al[] = "${}A";
    if (ALL) { unsigned k = (unsigned) symx_choice ("char", 5); if (k < 4) ASSUME (t[i] == al[k]); else ASSUME (t[i] != 0 && !strchr (al, t[i])); if (k < 4) t[i] = al[k]; }
  }
  static const char * vals[] = { "", "v", "long value ${A}", NULL }; env_a = vals[symx_choice ("A", 4)];
  char want[160]; unsigned n = 0; bool fail = false;
  for (int i = 0; i < N && !fail; )
  {
    int e = -1;
    if (t[i] == '$' && i + 1 < N && t[i + 1] == '{') for (int j = i; j < N && e < 0; j++) if (t[j] == '}') e = j;
    if (e < 0) { want[n++] = t[i++]; continue; }
    int l = e - i - 2;
    const char * v = l == 1 && t[i + 2] == 'A' ? env_a : l == 2 && t[i + 2] == 'A' && t[i + 3] == 'A' ? "" : NULL;
    if (!v) { fail = true; break; }
    while (*v) want[n++] = *v++;
    i = e + 1;
  }
  want[n] = 0;
  char * r = iot_config_substitute_env (t, lg);
  CHECK ((r == NULL) == fail, "fails exactly when a variable is empty or not set");
  logged (fail, "a failure is logged once");
  if (r) { CHECK (strlen (r) == n, "length"); for (unsigned i = 0; i < n; i++) CHECK (r[i] == want[i], "every variable is replaced by its value and all else kept"); }
  free (r); free (t);
  CHECK (iot_config_substitute_env (NULL, lg) == NULL, "no text");
#elif MODE == 1  // long variable names
  unsigned len = 60 + (unsigned) symx_choice ("length", 7), pre = (unsigned) symx_choice ("before", 3), post = (unsigned) symx_choice ("after", 3);
  char t[90], want[90]; unsigned n = 0, w = 0; char name[80]; memset (name, 'x', len); name[len] = 0; env_long = symx_choice ("set", 2) ? name : NULL;
  while (pre--) t[n++] = want[w++] = 'p';
  t[n++] = '$'; t[n++] = '{'; memcpy (t + n, name, len); n += len; t[n++] = '}'; want[w++] = 'L';
  while (post--) t[n++] = want[w++] = 'q';
  t[n] = want[w] = 0;
  char * r = iot_config_substitute_env (t, lg); bool ok = env_long && len < 64;
  CHECK ((r != NULL) == ok, "names of up to 63 characters are resolved, longer ones fail"); logged (!ok, "logged");
  if (r) CHECK (strcmp (r, want) == 0, "substituted");
  free (r);
#else            // typed access
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
  iot_data_string_map_add (m, "other", iot_data_alloc_i32 (5));
  unsigned k = (unsigned) symx_choice ("kind", 16); num_t v = { 0 }; value = NULL;
  iot_data_t * d = NULL;
  if (k < 11) { v = num_in ("v", (iot_data_type_t) k); d = num_alloc ((iot_data_type_t) k, v); }
  else switch (k) { case 11: d = STR ("cc"); break; case 12: d = iot_data_alloc_map (IOT_DATA_STRING); break; case 13: d = iot_data_alloc_vector (1); break; case 14: d = STR ("dd"); break; default: break; }
  if (d) iot_data_string_map_add (m, "k", d);
  unsigned g = (unsigned) symx_choice ("getter", 11); bool got = false;
  if (g < 6)
  {
    static const iot_data_type_t ty[] = { IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_INT32, IOT_DATA_UINT32, IOT_DATA_BOOL, IOT_DATA_FLOAT64 };
    num_t o, was, want; o.u64 = 0xa5a5a5a5a5a5a500u; was = o;
    switch (g)
    {
      case 0: got = iot_config_i64 (m, "k", &o.i64, lg); break;
      case 1: got = iot_config_ui64 (m, "k", &o.u64, lg); break;
      case 2: got = iot_config_i32 (m, "k", &o.i32, lg); break;
      case 3: got = iot_config_ui32 (m, "k", &o.u32, lg); break;
      case 4: got = iot_config_bool (m, "k", &o.b, lg); break;
      default: got = iot_config_f64 (m, "k", &o.f64, lg); break;
    }
    bool can = k < 11 && num_convert ((iot_data_type_t) k, v, ty[g], &want);
    CHECK (got == can, "resolved exactly when there is a number of that name representable in the type");
    if (got) CHECK (num_same (ty[g], o, want), "the value configured"); else CHECK (o.u64 == was.u64, "otherwise the variable is not changed");
  }
  else if (g == 6)
  {
    bool al = symx_choice ("alloc", 2); const char * s = iot_config_string (m, "k", al, lg); got = s != NULL;
    CHECK (got == (k == 11 || k == 14), "text"); if (s) { CHECK (!strcmp (s, k == 11 ? "cc" : "dd"), "the text configured"); CHECK (al == (s != iot_data_string (d)), "allocated on request"); if (al) free ((void*) s); }
  }
  else if (g == 7) { const iot_data_t * r = iot_config_map (m, "k", lg); got = r != NULL; CHECK (r == (k == 12 ? d : NULL), "map"); }
  else if (g == 8) { const iot_data_t * r = iot_config_vector (m, "k", lg); got = r != NULL; CHECK (r == (k == 13 ? d : NULL), "vector"); }
  else if (g == 9) { comp_there = symx_choice ("there", 2); iot_component_t * c = iot_config_component (m, "k", (iot_container_t*) &comp, lg); got = c != NULL; CHECK (c == (k == 11 && comp_there ? &comp : NULL), "component"); CHECK (finds == (k == 11 || k == 14), "looked up by name"); }
  else { bool al = symx_choice ("alloc", 2), def = symx_choice ("default", 2); const char * s = iot_config_string_default (m, "k", def ? "dflt" : NULL, al); const char * w = k == 11 ? "cc" : k == 14 ? "dd" : def ? "dflt" : NULL; CHECK (w ? s && !strcmp (s, w) : !s, "text or default"); if (al) free ((void*) s); got = true; }
  logged (!got, "a value that cannot be resolved is logged once");
  iot_data_free (m);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
