// symbolic values: gen () builds a library value and, independently, a plain description of it
#ifndef VAL_H
#define VAL_H
#include "h.h"
typedef struct val_t { iot_data_type_t type; num_t n; char s[4]; uint8_t len; uint8_t cnt; struct val_t * key[2]; struct val_t * el[2]; } val_t;
#define K_I8 1
#define K_U8 2
#define K_I64 4
#define K_U64 8
#define K_F64 16
#define K_BOOL 32
#define K_NULL 64
#define K_STR 128
#define K_ARR 256
#define K_BIN 512
#define K_VEC 1024
#define K_LIST 2048
#define K_MAP 4096
#define K_F32 8192
#define K_I32 16384
#define K_U16 32768
#define K_CONT (K_VEC | K_LIST | K_MAP)
#define K_HOLE 65536   /* vector element left empty */
static const iot_data_type_t k_types[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_INT64, IOT_DATA_UINT64, IOT_DATA_FLOAT64, IOT_DATA_BOOL, IOT_DATA_NULL, IOT_DATA_STRING, IOT_DATA_ARRAY, IOT_DATA_BINARY, IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP, IOT_DATA_FLOAT32, IOT_DATA_INT32, IOT_DATA_UINT16, IOT_DATA_INVALID };
static val_t pool_[64]; static unsigned pn_;
#ifndef SMAX
#define SMAX 2   /* longest generated string */
#endif
static val_t * v_new (iot_data_type_t t) { val_t * v = &pool_[pn_++]; memset (v, 0, sizeof (*v)); v->type = t; return v; }
static void v_str (val_t * v)
{
  v->len = (uint8_t) symx_choice ("slen", SMAX + 1);
  for (unsigned i = 0; i < v->len; i++) { v->s[i] = (char) symx_input ("ch", 8); ASSUME (v->s[i] != 0); }
}
static bool v_eq (const val_t * a, const val_t * b)
{
  if (a->type != b->type) return false;
  switch (a->type)
  {
    case IOT_DATA_NULL: case IOT_DATA_INVALID: return true;
    case IOT_DATA_STRING: case IOT_DATA_ARRAY: case IOT_DATA_BINARY:
      if (a->len != b->len) return false;
      for (unsigned i = 0; i < a->len; i++) if (a->s[i] != b->s[i]) return false;
      return true;
    case IOT_DATA_VECTOR: case IOT_DATA_LIST: case IOT_DATA_MAP:
      if (a->cnt != b->cnt) return false;
      for (unsigned i = 0; i < a->cnt; i++) { if (a->type == IOT_DATA_MAP && !v_eq (a->key[i], b->key[i])) return false; if (!v_eq (a->el[i], b->el[i])) return false; }
      return true;
    default: return num_same (a->type, a->n, b->n);
  }
}
static iot_data_t * v_make (const val_t * v)
{
  switch (v->type)
  {
    case IOT_DATA_INVALID: return NULL;
    case IOT_DATA_NULL: return iot_data_alloc_null ();
    case IOT_DATA_STRING: return iot_data_alloc_string (v->s, IOT_DATA_COPY);
    case IOT_DATA_ARRAY: return iot_data_alloc_array (v->len ? (void*) v->s : NULL, v->len, IOT_DATA_UINT8, IOT_DATA_COPY);
    case IOT_DATA_BINARY: return iot_data_alloc_binary (v->len ? (void*) v->s : NULL, v->len, IOT_DATA_COPY);
    case IOT_DATA_VECTOR: { iot_data_t * d = iot_data_alloc_vector (v->cnt); for (unsigned i = 0; i < v->cnt; i++) if (v->el[i]->type != IOT_DATA_INVALID) iot_data_vector_add (d, i, v_make (v->el[i])); return d; }
    case IOT_DATA_LIST: { iot_data_t * d = iot_data_alloc_list (); for (unsigned i = 0; i < v->cnt; i++) iot_data_list_head_push (d, v_make (v->el[i])); return d; }
    case IOT_DATA_MAP: { iot_data_t * d = iot_data_alloc_map (IOT_DATA_MULTI); for (unsigned i = 0; i < v->cnt; i++) iot_data_map_add (d, v_make (v->key[i]), v_make (v->el[i])); return d; }
    default: return num_alloc (v->type, v->n);
  }
}
static val_t * v_gen (uint32_t kinds, uint32_t inner, unsigned maxn)
{
  unsigned opts[17], n = 0;
  for (unsigned i = 0; i < 17; i++) if (kinds & (1u << i)) opts[n++] = i;
  val_t * v = v_new (k_types[opts[n > 1 ? symx_choice ("kind", n) : 0]]);
  switch (v->type)
  {
    case IOT_DATA_NULL: case IOT_DATA_INVALID: break;
#ifdef NUM_CHOICE
    case IOT_DATA_ARRAY: v->len = (uint8_t) symx_choice ("slen", SMAX + 1); for (unsigned i = 0; i < v->len; i++) v->s[i] = (char) (symx_choice ("el", 2) ? 249 : 7); break;
#else
    case IOT_DATA_ARRAY:
#endif
    case IOT_DATA_STRING: case IOT_DATA_BINARY: v_str (v); break;
    case IOT_DATA_VECTOR: case IOT_DATA_LIST: case IOT_DATA_MAP:
      v->cnt = (uint8_t) symx_choice ("count", maxn + 1);
      for (unsigned i = 0; i < v->cnt; i++)
      {
        if (v->type == IOT_DATA_MAP)
        {
          v->key[i] = v_new (IOT_DATA_STRING); v->key[i]->len = 1; 
#ifdef KEY_FIXED
          v->key[i]->s[0] = "A\x7f"[i];
#else
          v->key[i]->s[0] = (char) symx_input ("key", 8);
#endif
          ASSUME (v->key[i]->s[0] != 0);
          if (i) ASSUME ((uint8_t) v->key[0]->s[0] < (uint8_t) v->key[1]->s[0]);
        }
        v->el[i] = v_gen (v->type == IOT_DATA_VECTOR ? inner : (inner & ~K_HOLE), inner & K_CONT ? (inner & ~K_CONT) | K_U8 : inner, maxn);   // one level of containers in a container
      }
      break;
    case IOT_DATA_FLOAT64: v->n = num_in ("num", v->type); ASSUME (v->n.f64 == v->n.f64); break; // NaN excluded
    case IOT_DATA_FLOAT32: v->n = num_in ("num", v->type); ASSUME (v->n.f32 == v->n.f32); break;
#ifdef NUM_CHOICE   // a few values of each type rather than all
    default: { static const uint64_t few[] = { 0, 9, 0x8000000000000080u, UINT64_MAX }; v->n.u64 = few[v->type == IOT_DATA_BOOL ? 3 * symx_choice ("bool", 2) : symx_choice ("num", 4)]; if (v->type == IOT_DATA_BOOL) v->n.u64 &= 1; break; }
#else
    default: v->n = num_in ("num", v->type); break;
#endif
  }
  return v;
}
#endif
