// C10: access, addition, removal and update at a path in nested maps and vectors never change the original
#include "h.h"
// tree: { "a": [ { "x": v0, "y": v1 }, v2, hole ], "b": v3 }
static uint8_t v[4];
typedef struct { int a, x, y, e1, e2, b, z, ax; int shape; } tree_t; // values or -1 for absent; shape of "a": 0 vector, 1 absent, 2 scalar (value a)
static iot_data_t * u8 (int x) { return iot_data_alloc_ui8 ((uint8_t) x); }
static iot_data_t * build (const tree_t * t)
{
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
  if (t->shape == 0)
  {
    iot_data_t * vec = iot_data_alloc_vector (t->e1 == -2 ? 1 : t->ax ? 2 : 3);
    if (t->x != -3)
    {
      iot_data_t * in = iot_data_alloc_map (IOT_DATA_STRING);
      if (t->x >= 0) iot_data_map_add (in, STR ("x"), u8 (t->x));
      if (t->y >= 0) iot_data_map_add (in, STR ("y"), u8 (t->y));
      if (t->z >= 0) iot_data_map_add (in, STR ("z"), u8 (t->z));
      iot_data_vector_add (vec, 0, in);
    }
    else iot_data_vector_add (vec, 0, u8 (t->y));
    if (t->e1 >= 0) iot_data_vector_add (vec, 1, u8 (t->e1));
    if (t->e2 >= 0) iot_data_vector_add (vec, 2, u8 (t->e2));
    iot_data_map_add (m, STR ("a"), vec);
  }
  else if (t->shape == 2) iot_data_map_add (m, STR ("a"), u8 (t->a));
  if (t->b >= 0) iot_data_map_add (m, STR ("b"), u8 (t->b));
  return m;
}
enum { P_ROOT, P_A, P_B, P_C, P_A0, P_A1, P_A2, P_A0X, P_A0Y, P_A0Z, P_A9, P_BX, P_A0XX, NP };
static iot_data_list_static_t sl;
static iot_data_t * path (int p, bool st)
{
  iot_data_t * l = st ? iot_data_alloc_const_list (&sl) : iot_data_alloc_list ();
#define S(s) iot_data_list_tail_push (l, iot_data_alloc_string (s, IOT_DATA_REF))
#define I(i) iot_data_list_tail_push (l, iot_data_alloc_ui32 (i))
  switch (p)
  {
    case P_A: S ("a"); break;
    case P_B: S ("b"); break;
    case P_C: S ("c"); break;
    case P_A0: S ("a"); I (0); break;
    case P_A1: S ("a"); I (1); break;
    case P_A2: S ("a"); I (2); break;
    case P_A0X: S ("a"); I (0); S ("x"); break;
    case P_A0Y: S ("a"); I (0); S ("y"); break;
    case P_A0Z: S ("a"); I (0); S ("z"); break;
    case P_A9: S ("a"); I (3); break;
    case P_BX: S ("b"); S ("x"); break;
    case P_A0XX: S ("a"); I (0); S ("x"); S ("x"); break;
    default: break;
  }
  return l;
}
static uint8_t delta; static int calls; static int seen;
static iot_data_t * upd (const iot_data_t * d, void * arg) { CHECK (arg == &delta, "argument passed through"); calls++; if (iot_data_type (d) == IOT_DATA_UINT8) { seen = iot_data_ui8 (d); return u8 ((uint8_t) (seen + delta)); } seen = -1; return u8 (delta); }
int main (void)
{
  LIVE0;
  for (int i = 0; i < 4; i++) v[i] = IN_U8 ("v");
  bool hole = symx_choice ("hole", 2);
  tree_t t = { .x = v[0], .y = v[1], .e1 = v[2], .e2 = hole ? -1 : 77, .b = v[3], .z = -1, .ax = 0 }, e = t;
  iot_data_t * d = build (&t), * keep = build (&t);
  bool st = symx_choice ("static path", 2);
  int p = (int) symx_choice ("path", NP); iot_data_t * l = path (p, st); uint32_t len = iot_data_list_length (l);
  const iot_data_t * vec = iot_data_string_map_get (d, "a"), * in = iot_data_vector_get (vec, 0);
  iot_data_t * r = NULL; uint8_t nv = IN_U8 ("new"); delta = nv;
  int op = (int) symx_choice ("op", 4);
  switch (op)
  {
    case 0:
    {
      const iot_data_t * g = iot_data_get_at (d, l), * x = NULL;
      switch (p) { case P_ROOT: x = d; break; case P_A: x = vec; break; case P_B: x = iot_data_string_map_get (d, "b"); break; case P_A0: x = in; break; case P_A1: x = iot_data_vector_get (vec, 1); break; case P_A2: x = iot_data_vector_get (vec, 2); break; case P_A0X: x = iot_data_string_map_get (in, "x"); break; case P_A0Y: x = iot_data_string_map_get (in, "y"); break; default: break; }
      CHECK (g == x, "get returns exactly the datum at the path, or nothing");
      symx_cover (g ? "found" : "absent");
      break;
    }
    case 1:
    {
      ASSUME (p != P_A9 && p != P_BX && p != P_A0XX);
      iot_data_t * val = u8 (nv); r = iot_data_add_at (d, l, val);
      if (p == P_ROOT) { CHECK (r == val, "adding at the root replaces it"); iot_data_free (r); r = NULL; break; }
      switch (p) { case P_A: e.shape = 2; e.a = nv; break; case P_B: e.b = nv; break; case P_A0: e.x = -3; e.y = nv; break; case P_A1: e.e1 = nv; break; case P_A2: e.e2 = nv; break; case P_A0X: e.x = nv; break; case P_A0Y: e.y = nv; break; case P_A0Z: e.z = nv; break; default: break; }
      if (p == P_C) { iot_data_t * x = build (&e); iot_data_map_add (x, STR ("c"), u8 (nv)); CHECK (iot_data_equal (r, x), "added under a new key"); iot_data_free (x); iot_data_free (r); r = NULL; break; }
      CHECK (iot_data_get_at (r, l) == val, "the value given is found at the path");
      break;
    }
    case 2:
    {
      ASSUME (p != P_A9 && p != P_BX && p != P_A0XX);
      if (p == P_A2 && hole) ASSUME (0);   // nothing there to remove
      if (hole) ASSUME (p != P_A0 && p != P_A1); // removal from a vector also closes its holes: checked without
      r = iot_data_remove_at (d, l);
      switch (p) { case P_A: e.shape = 1; break; case P_B: e.b = -1; break; case P_A0X: e.x = -1; break; case P_A0Y: e.y = -1; break; case P_A2: e.e2 = -1; e.ax = 1; break; default: break; }
      if (p == P_A0 || p == P_A1)
      {
        iot_data_t * x = build (&e), * xv = iot_data_alloc_vector (2);
        if (p == P_A0) { iot_data_vector_add (xv, 0, u8 (v[2])); } else { iot_data_vector_add (xv, 0, iot_data_copy (in)); }
        iot_data_vector_add (xv, 1, u8 (77)); iot_data_map_add (x, STR ("a"), xv);
        CHECK (iot_data_equal (r, x), "element removed and gap closed"); iot_data_free (x); iot_data_free (r); r = NULL;
      }
      break;
    }
    default:
    {
      ASSUME (p != P_A9 && p != P_A0XX && p != P_BX);
      r = iot_data_update_at (d, l, upd, &delta);
      bool there = !(p == P_C || p == P_A0Z || (p == P_A2 && hole));
      CHECK (calls == there, "update function called exactly for an existing datum");
      if (p == P_ROOT) { CHECK (iot_data_ui8 (r) == delta && seen == -1, "update of the root"); iot_data_free (r); r = NULL; break; }
      switch (p) { case P_A: e.shape = 2; e.a = delta; break; case P_B: e.b = (uint8_t) (v[3] + delta); break; case P_A0: e.x = -3; e.y = delta; break; case P_A1: e.e1 = (uint8_t) (v[2] + delta); break; case P_A2: if (!hole) e.e2 = (uint8_t) (77 + delta); break; case P_A0X: e.x = (uint8_t) (v[0] + delta); break; case P_A0Y: e.y = (uint8_t) (v[1] + delta); break; default: break; }
      break;
    }
  }
  if (r)
  {
    iot_data_t * x = build (&e);
    CHECK (iot_data_equal (r, x), "result is the original with exactly the one change");
    iot_data_free (x);
    if (p == P_B) CHECK (iot_data_string_map_get (r, "a") == vec, "untouched parts are shared");
    symx_cover ("changed");
  }
  CHECK (iot_data_equal (d, keep) && iot_data_string_map_get (d, "a") == vec && iot_data_vector_get (vec, 0) == in, "the original is unchanged");
  CHECK (iot_data_list_length (l) == len, "the path is unchanged");
  iot_data_free (d); CHECK (!r || iot_data_type (r) == IOT_DATA_MAP, "result outlives the original");
  if (r) { iot_data_t * x = build (&e); CHECK (iot_data_equal (r, x), "result unchanged after the original is freed"); iot_data_free (x); }
  if (st) iot_data_list_empty (l);
  iot_data_free (l); iot_data_free (r); iot_data_free (keep);
  symx_cover ("end");
  LIVE_END ("no leak");
}
