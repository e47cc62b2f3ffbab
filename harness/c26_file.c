// File input and output under every failure
#include "h.h"
#include "iot/file.h"
#include "env_file.h"
#define DIRN "d"
#define P "d/f"
static uint8_t oldc[4], newc[4]; static size_t oldn, newn; static int have_old; static bool watching;
static bool holds (const uint8_t * d, size_t n)
{
  int i = sxf_find (P); if (i < 0 || sxf_files[i].kind != SXF_REG || sxf_files[i].len != n) return false;
  for (size_t k = 0; k < n; k++) if ((uint8_t) sxf_files[i].data[k] != d[k]) return false;
  return true;
}
static bool old_state (void) { return have_old ? holds (oldc, oldn) : sxf_find (P) < 0; }
void sxf_step (void) { if (watching) CHECK (old_state () || holds (newc, newn), "at every moment the file has its complete old or its complete new content"); }
static int count (void) { int n = 0; for (int i = 0; i < SXF_FILES; i++) n += sxf_files[i].kind != 0; return n; }
int main (void)
{
  LIVE0;
  sxf_put (DIRN, SXF_DIR, "", 0);
#if MODE == 0
  if ((have_old = (int) symx_choice ("exists", 2))) { oldn = symx_choice ("old length", 3); symx_bytes ("old", oldc, oldn); sxf_put (P, SXF_REG, oldc, oldn); }
  if (symx_choice ("stale", 2)) sxf_put (P ".new", SXF_REG, "zzz", 3);
  bool text = symx_choice ("text", 2);
  newn = 1 + symx_choice ("new length", 3); symx_bytes ("new", newc, newn);
  if (text) { for (size_t i = 0; i < newn; i++) ASSUME (newc[i] != 0); newc[newn] = 0; }
  sxf_faults = FAULTS; watching = true;
  bool ok = text ? iot_file_write (P, (const char*) newc) : iot_file_write_binary (P, newc, newn);
  watching = false; int left = sxf_faults; sxf_faults = 0;
  CHECK (ok ? holds (newc, newn) : old_state (), "success exactly when the new content is in place, else the old is kept");
  if (left == FAULTS) { CHECK (ok, "success when nothing fails"); symx_cover ("ok"); }
  if (!ok) symx_cover ("failed");
  if (ok || left >= FAULTS - 1) CHECK (sxf_find (P ".new") < 0 || (!ok && left == FAULTS - 1 && sxf_files[sxf_find (P ".new")].len == 3), "no temporary file is left");
  CHECK (sxf_open == 0, "the stream is closed");
  // what was written is read back
  size_t n = 99; uint8_t * r = iot_file_read_binary (P, &n);
  if (ok) { CHECK (r && n == newn, "read back"); for (size_t i = 0; i < n; i++) CHECK (r[i] == newc[i], "same content"); CHECK (r[n] == 0, "terminated"); }
  free (r);
  bool gone = iot_file_delete (P);
  CHECK (gone == (ok || have_old) && sxf_find (P) < 0, "deleted exactly when it existed");
  sxf_files[0].kind = 0; int i = sxf_find (P ".new"); if (i >= 0) sxf_files[i].kind = 0;
  CHECK (count () == 0, "nothing else is created");
#elif MODE == 1
  unsigned k = (unsigned) symx_choice ("kind", 3);   // missing, regular, directory
  size_t n = 77; oldn = symx_choice ("length", 5); symx_bytes ("content", oldc, oldn < 4 ? oldn : 4); if (oldn > 4) oldn = 4;
  if (k == 1) sxf_put (P, SXF_REG, oldc, oldn); else if (k == 2) sxf_put (P, SXF_DIR, "", 0);
  sxf_faults = FAULTS;
  bool text = symx_choice ("text", 2);
  uint8_t * r = text ? (uint8_t*) iot_file_read (P) : iot_file_read_binary (P, &n);
  if (r)
  {
    CHECK (k == 1 && oldn > 0, "content only from a file that has some");
    if (!text) CHECK (n == oldn, "exact length");
    for (size_t i = 0; i < oldn; i++) CHECK (r[i] == oldc[i], "exact content");
    CHECK (r[oldn] == 0, "terminated");
    symx_cover ("read");
  }
  else { CHECK (text || n == 0, "nothing read has length 0"); CHECK (k != 1 || oldn == 0 || sxf_faults < FAULTS, "a readable file is read"); symx_cover ("nothing"); }
  free (r);
  CHECK (sxf_open == 0, "the stream is closed");
#else
  static const char * name[] = { "a.json", "bjson", "json", ".json", "c.json.x" }; static const char * pat[] = { NULL, "\\.json$", "^a", "[", "" };
  int kind[3]; unsigned nm[3];
  for (int i = 0; i < 3; i++)
  {
    nm[i] = (unsigned) symx_choice ("name", 5); kind[i] = (int) symx_choice ("kind", 4);
    for (int j = 0; j < i; j++) if (nm[j] >= nm[i]) symx_prune ();
    if (kind[i]) { char p[16]; snprintf (p, sizeof (p), DIRN "/%s", name[nm[i]]); sxf_put (p, kind[i], "x", 1); }
  }
  unsigned p = (unsigned) symx_choice ("pattern", 5); bool missing = symx_choice ("missing", 2);
  sxf_faults = FAULTS;
  iot_data_t * list = iot_file_list (missing ? "e" : DIRN, pat[p]);
  if (missing || p == 3 || sxf_faults < FAULTS) CHECK (list == NULL, "nothing listed when the directory or pattern is bad");
  else
  {
    iot_data_list_iter_t it; iot_data_list_iter (list, &it);
    bool want[5] = { false };
    for (int i = 0; i < 3; i++) { unsigned m = nm[i]; want[m] = kind[i] == SXF_REG && (p == 0 || p == 4 || (p == 1 ? m == 0 || m == 3 : m == 0)); }
    while (iot_data_list_iter_next (&it))
    {
      unsigned m = 0; while (m < 5 && strcmp (iot_data_list_iter_string_value (&it), name[m])) m++;
      CHECK (m < 5 && want[m], "only matching regular files, once each"); want[m] = false;
    }
    for (int i = 0; i < 5; i++) CHECK (!want[i], "every matching regular file");
    symx_cover ("listed");
  }
  iot_data_free (list);
  CHECK (sxf_dirs == 0 && sxf_regs == 0, "directory and pattern released");
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
