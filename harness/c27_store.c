// The configuration store
#include "h.h"
#include "iot/store.h"
#include "iot/file.h"
#include "env_file.h"
static const char * lastp; static const uint8_t * lastb; static size_t lastn; static unsigned calls; static bool ret; static char path[32];
static uint8_t * rd (const char * p, size_t * n) { calls++; strcpy (path, p); if (n) *n = 2; return ret ? (uint8_t*) strdup ("q") : NULL; }
static bool wr (const char * p, const uint8_t * b, size_t n) { calls++; strcpy (path, p); lastb = b; lastn = n; return ret; }
static bool del (const char * p) { calls++; strcpy (path, p); return ret; }
static const char * names[] = { "a", "b", "", "x.json" }, * uris[] = { NULL, "d", "d/e" };
int main (void)
{
  LIVE0; (void) lastp;
#if MODE == 0   // save, load, delete against a reference of what is stored under each name and place
  sxf_put ("d", SXF_DIR, "", 0);
  char ref[2][3][4]; memset (ref, 0, sizeof (ref));
  for (int i = 0; i < N; i++)
  {
    unsigned n = (unsigned) symx_choice ("name", 2), u = (unsigned) symx_choice ("uri", 2 + (i > 0)); char t[4] = { 0 };
    switch (symx_choice ("op", 3))
    {
      case 0: { unsigned l = 1 + (unsigned) symx_choice ("length", 2); symx_bytes ("text", t, l); for (unsigned k = 0; k < l; k++) ASSUME (t[k] != 0); CHECK (iot_store_config_save (names[n], uris[u], t), "saved"); memcpy (ref[n][u], t, 4); break; }
      case 1: CHECK (iot_store_config_delete (names[n], uris[u]) == (ref[n][u][0] != 0), "deleted exactly when present"); ref[n][u][0] = 0; break;
      default: { char * s = iot_store_config_load (names[n], uris[u]); CHECK ((s != NULL) == (ref[n][u][0] != 0) && (!s || strcmp (s, ref[n][u]) == 0), "loads what was last saved there"); free (s); }
    }
  }
  for (unsigned n = 0; n < 2; n++) for (unsigned u = 0; u < 3; u++) { char * s = iot_store_config_load (names[n], uris[u]); CHECK ((s != NULL) == (ref[n][u][0] != 0) && (!s || strcmp (s, ref[n][u]) == 0), "each name and place keeps its own configuration"); free (s); }
  iot_data_t * l = iot_store_config_list ("d"); iot_data_list_iter_t it; iot_data_list_iter (l, &it); bool seen[2] = { false, false };
  while (iot_data_list_iter_next (&it)) { const char * s = iot_data_list_iter_string_value (&it); CHECK (strlen (s) == 1 && (s[0] == 'a' || s[0] == 'b') && !seen[s[0] - 'a'], "listed by name"); seen[s[0] - 'a'] = true; }
  for (int n = 0; n < 2; n++) CHECK (seen[n] == (ref[n][1][0] != 0), "listed exactly when stored");
  iot_data_free (l);
#elif MODE == 1 // custom functions get what was asked and their result is returned
  unsigned n = (unsigned) symx_choice ("name", 4), u = (unsigned) symx_choice ("uri", 3), have = (unsigned) symx_choice ("functions", 8); ret = symx_choice ("result", 2);
  iot_store_config (have & 1 ? rd : NULL, have & 2 ? wr : NULL, have & 4 ? del : NULL);
  char want[32]; if (uris[u]) snprintf (want, sizeof (want), "%s/%s.json", uris[u], names[n]); else snprintf (want, sizeof (want), "%s.json", names[n]);
  unsigned op = (unsigned) symx_choice ("op", 7); bool set = have & (op < 2 || op == 6 ? 1 : op < 4 || op == 4 ? 2 : 4), conf = false; size_t len = 55; char * r = NULL; bool ok = false;
  switch (op)
  {
    case 0: r = iot_store_config_load (names[n], uris[u]); conf = true; break;
    case 1: r = iot_store_read (names[n]); break;
    case 2: ok = iot_store_config_save (names[n], uris[u], "text"); conf = true; break;
    case 3: ok = iot_store_write (names[n], "tex"); break;
    case 4: ok = iot_store_write_binary (names[n], (const uint8_t*) "\0z", 2); break;
    case 5: ok = symx_choice ("config", 2) ? (conf = true, iot_store_config_delete (names[n], uris[u])) : iot_store_delete (names[n]); break;
    default: r = (char*) iot_store_read_binary (names[n], &len); if (r) CHECK (len == 2, "length passed on"); break;
  }
  CHECK (calls == (set ? 1 : 0), "the configured function is called once");
  if (calls) CHECK (strcmp (path, conf ? want : names[n]) == 0, "with the path asked for");
  if (op == 0 || op == 1 || op == 6) CHECK ((r != NULL) == (set && ret) && (!r || strcmp (r, "q") == 0), "its result is returned"); else CHECK (ok == (set && ret), "its result is returned");
  if (calls && op == 2) CHECK (lastn == 4 && memcmp (lastb, "text", 4) == 0, "with the content");
  if (calls && op == 3) CHECK (lastn == 3 && memcmp (lastb, "tex", 3) == 0, "with the content");
  if (calls && op == 4) CHECK (lastn == 2 && lastb[0] == 0 && lastb[1] == 'z', "with the content");
  free (r);
#else           // listing
  static const char * name[] = { "d/a.json", "d/bjson", "d/.json", "d/c.json.x", "d/cc.json", "d/e.f.json", "d/g.json.json" }; int k[7];
  if (symx_choice ("missing", 2)) { iot_data_t * l = iot_store_config_list ("e"); CHECK (l == NULL || iot_data_list_length (l) == 0, "nothing in a missing directory"); iot_data_free (l); }
  else
  {
    sxf_put ("d", SXF_DIR, "", 0); for (int i = 0; i < 7; i++) { k[i] = (int) symx_choice ("kind", i < 5 ? 3 : 2); if (k[i]) sxf_put (name[i], k[i], "x", 1); }
    iot_data_t * l = iot_store_config_list ("d"); iot_data_list_iter_t it; iot_data_list_iter (l, &it);
    static const char * want[] = { "a", NULL, "", NULL, "cc", "e.f", "g.json" };
    while (iot_data_list_iter_next (&it))
    {
      const char * s = iot_data_list_iter_string_value (&it); int m = 0; while (m < 7 && !(k[m] == SXF_REG && want[m] && strcmp (s, want[m]) == 0)) m++;
      CHECK (m < 7, "only configurations are listed, by name without extension, once each"); k[m] = 0;
    }
    for (int i = 0; i < 7; i++) CHECK (k[i] != SXF_REG || !want[i], "every configuration is listed");
    iot_data_free (l);
  }
#endif
  CHECK (sxf_open == 0 && sxf_dirs == 0 && sxf_regs == 0, "everything closed");
  symx_cover ("end");
  LIVE_END ("no leak");
}
