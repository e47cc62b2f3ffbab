// C08: every owned datum is released exactly once, when its last reference goes, and nothing leaks
#include "h.h"
#include <pthread.h>
static int freed[4];
static void rel (void * p) { int i = (int) ((intptr_t) p & 3); freed[i]++; CHECK (freed[i] == 1, "released at most once"); }
static iot_data_t * ptr (int i) { return iot_data_alloc_pointer ((void*) (intptr_t) (16 + i), rel); }
static iot_data_t * mk_key (unsigned i) { char s[2] = { (char) ('a' + i), 0 }; return iot_data_alloc_string (s, IOT_DATA_COPY); }
#if MODE == 0
// three tracked data, a map, a vector and a list; every sequence of N operations moving references around
static iot_data_t * c[3];   // containers, own references
static int refs[3];         // references held: by the harness (1) and by containers
static bool mine[3];
static int inmap[2] = { -1, -1 }, invec[2] = { -1, -1 }, inlist[8], nlist;
static iot_data_t * d[3];
static void drop (int i) { if (i >= 0) refs[i]--; }
static void audit (void) { for (int i = 0; i < 3; i++) { CHECK (freed[i] == (refs[i] == 0), "released exactly when no reference is left"); if (refs[i]) CHECK (iot_data_ref_count (d[i]) == (uint32_t) refs[i], "reference count is the number of holders"); } }
#endif
#if MODE == 2
static iot_data_t * shared;
static void * worker (void * a) { (void) a; iot_data_t * r = iot_data_add_ref (shared); iot_data_free (r); iot_data_free (shared); return NULL; }
#endif
int main (void)
{
  LIVE0;
#if MODE == 0
  c[0] = iot_data_alloc_map (IOT_DATA_STRING); c[1] = iot_data_alloc_vector (2); c[2] = iot_data_alloc_list ();
  for (int i = 0; i < 3; i++) { d[i] = ptr (i); refs[i] = 1; mine[i] = true; }
  for (int s = 0; s < N; s++)
  {
    switch (symx_choice ("op", 9))
    {
      case 0: { int i = (int) symx_choice ("d", 3); unsigned k = (unsigned) symx_choice ("k", 2); if (!refs[i] || !c[0]) break; iot_data_map_add (c[0], mk_key (k), iot_data_add_ref (d[i])); refs[i]++; drop (inmap[k]); inmap[k] = i; break; }
      case 1: { int i = (int) symx_choice ("d", 3); unsigned k = (unsigned) symx_choice ("k", 2); if (!refs[i] || !c[1]) break; iot_data_vector_add (c[1], k, iot_data_add_ref (d[i])); refs[i]++; drop (invec[k]); invec[k] = i; break; }
      case 2: { int i = (int) symx_choice ("d", 3); if (!refs[i] || !c[2]) break; iot_data_list_head_push (c[2], iot_data_add_ref (d[i])); refs[i]++; inlist[nlist++] = i; break; }
      case 3: { int i = (int) symx_choice ("d", 3); if (!mine[i]) break; mine[i] = false; refs[i]--; iot_data_free (d[i]); break; }
      case 4: { unsigned k = (unsigned) symx_choice ("k", 2); if (!c[0]) break; iot_data_t * q = mk_key (k); iot_data_map_remove (c[0], q); iot_data_free (q); drop (inmap[k]); inmap[k] = -1; break; }
      case 5: { if (!c[1]) break; iot_data_vector_resize (c[1], 0); iot_data_vector_resize (c[1], 2); drop (invec[0]); drop (invec[1]); invec[0] = invec[1] = -1; break; }
      case 6: { if (!c[2] || !nlist) break; iot_data_t * p = iot_data_list_head_pop (c[2]); int i = inlist[--nlist]; CHECK (p == d[i], "popped"); refs[i]--; iot_data_free (p); break; }
      case 7:
      {
        unsigned k = (unsigned) symx_choice ("container", 3); if (!c[k]) break;
        iot_data_t * cp = symx_choice ("shallow", 2) ? iot_data_shallow_copy (c[k]) : iot_data_copy (c[k]);   // pointers are shared by both kinds of copy
        iot_data_free (c[k]); c[k] = cp; break;
      }
      default:
      {
        unsigned k = (unsigned) symx_choice ("container", 3); if (!c[k]) break;
        iot_data_free (c[k]); c[k] = NULL;
        if (k == 0) { drop (inmap[0]); drop (inmap[1]); inmap[0] = inmap[1] = -1; }
        if (k == 1) { drop (invec[0]); drop (invec[1]); invec[0] = invec[1] = -1; }
        if (k == 2) { while (nlist) drop (inlist[--nlist]); }
        break;
      }
    }
    audit ();
  }
  for (int i = 0; i < 3; i++) iot_data_free (c[i]);
  for (int i = 0; i < 3; i++) if (mine[i]) iot_data_free (d[i]);
  for (int i = 0; i < 3; i++) CHECK (freed[i] == 1, "every datum released exactly once in the end");
#elif MODE == 1   // nested ownership, metadata, ownership of buffers, replacement operations
  iot_data_t * inner = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (inner, mk_key (0), ptr (0));
  iot_data_t * vec = iot_data_alloc_vector (2); iot_data_vector_add (vec, 0, inner); iot_data_vector_add (vec, 1, ptr (1));
  iot_data_t * list = iot_data_alloc_list (); iot_data_list_tail_push (list, vec);
  iot_data_t * key = STR ("meta");
  iot_data_set_metadata (list, ptr (2), key);
  if (symx_choice ("replace meta", 2)) { iot_data_set_metadata (list, ptr (3), key); CHECK (freed[2] == 1, "replaced metadata is released"); CHECK (iot_data_get_metadata (list, key) != NULL, "metadata is kept"); } else freed[3] = 1;
  iot_data_free (key);
  iot_data_t * cp = NULL, * ref = NULL;
  switch (symx_choice ("copy", 4)) { case 0: cp = iot_data_copy (list); break; case 1: cp = iot_data_shallow_copy (list); break; case 2: ref = iot_data_add_ref (vec); break; default: break; }
  switch (symx_choice ("op", 4)) { case 0: iot_data_list_empty (list); break; case 1: iot_data_vector_add (vec, 0, STR ("new value")); break; case 2: iot_data_compress (list); break; default: break; }
  if (symx_choice ("order", 2)) { iot_data_free (list); iot_data_free (cp); iot_data_free (ref); } else { iot_data_free (ref); iot_data_free (cp); iot_data_free (list); }
  for (int i = 0; i < 4; i++) CHECK (freed[i] == 1, "every datum released exactly once in the end");
#elif MODE == 2   // concurrent reference handling
  symx_preempt (2);
  iot_data_t * v = iot_data_alloc_vector (2); iot_data_vector_add (v, 0, ptr (0)); iot_data_vector_add (v, 1, STR ("a string too long for the value buffer"));
  shared = v; iot_data_add_ref (v); iot_data_add_ref (v);
  pthread_t t[2]; for (int i = 0; i < 2; i++) pthread_create (&t[i], NULL, worker, NULL);
  iot_data_free (v);
  for (int i = 0; i < 2; i++) pthread_join (t[i], NULL);
  CHECK (freed[0] == 1, "released exactly once by concurrent holders");
#else             // text and buffers of all lengths and ownerships
  unsigned n = (unsigned) symx_choice ("len", MAXLEN + 1);
  char * s = malloc (n + 1); for (unsigned i = 0; i < n; i++) { s[i] = (char) ('a' + i % 26); } s[n] = 0;
  if (n) { s[n - 1] = (char) IN_U8 ("last"); ASSUME (s[n - 1] != 0); }
  unsigned own = (unsigned) symx_choice ("own", 3);
  iot_data_t * d;
  switch (symx_choice ("type", 3))
  {
    case 0: d = iot_data_alloc_string (s, (iot_data_ownership_t) own); break;
    case 1: d = iot_data_alloc_array (n ? s : NULL, n, IOT_DATA_UINT8, (iot_data_ownership_t) own); if (!n && own == 1) free (s); break;
    default: d = iot_data_alloc_binary (n ? s : NULL, n, (iot_data_ownership_t) own); if (!n && own == 1) free (s); break;
  }
  iot_data_t * cp = NULL, * ref = NULL;
  switch (symx_choice ("op", 4))
  {
    case 0: cp = iot_data_copy (d); break;
    case 1: ref = iot_data_add_ref (d); break;
    case 2: cp = iot_data_shallow_copy (d); break;
    default: if (iot_data_type (d) != IOT_DATA_STRING) { uint32_t l; if (symx_choice ("share", 2)) ref = iot_data_add_ref (d); void * p = iot_data_binary_take (d, &l); CHECK (l == n && memcmp (p, s, n) == 0, "taken content"); free (p); } break;
  }
  if (symx_choice ("order", 2)) { iot_data_free (d); iot_data_free (cp); iot_data_free (ref); } else { iot_data_free (ref); iot_data_free (cp); iot_data_free (d); }
  if (own != 1) free (s);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
