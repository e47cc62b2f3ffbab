// C03: comparison is a total order; equality is structural; value comparison is numeric
#include "val.h"
#ifndef MAXN
#define MAXN 2
#endif
static int sgn (int x) { return x < 0 ? -1 : x > 0; }
// exact numeric order of two numbers of integer type, or of two of floating type
static int num_order (iot_data_type_t ta, num_t a, iot_data_type_t tb, num_t b)
{
  if (is_float_t (ta)) { double x = ta == IOT_DATA_FLOAT32 ? a.f32 : a.f64, y = tb == IOT_DATA_FLOAT32 ? b.f32 : b.f64; return x < y ? -1 : x > y; }
  int_t x = int_of (ta, a), y = int_of (tb, b);
  if (x.neg != y.neg) return x.neg ? -1 : 1;
  return x.v < y.v ? -1 : x.v > y.v;
}
int main (void)
{
  LIVE0;
#if MODE == 0   // numbers: every pair of numeric types, every bit pattern except NaN
  iot_data_type_t ta = TA, tb = (iot_data_type_t) symx_choice ("tb", 11);
  num_t a = num_in ("a", ta), b = num_in ("b", tb);
  if (ta == IOT_DATA_FLOAT32) ASSUME (a.f32 == a.f32);
  if (ta == IOT_DATA_FLOAT64) ASSUME (a.f64 == a.f64);
  if (tb == IOT_DATA_FLOAT32) ASSUME (b.f32 == b.f32);
  if (tb == IOT_DATA_FLOAT64) ASSUME (b.f64 == b.f64);
  iot_data_t * x = num_alloc (ta, a), * y = num_alloc (tb, b);
  int type_order = ta < tb ? -1 : ta > tb;
  bool numeric = (is_int_t (ta) && is_int_t (tb)) || (is_float_t (ta) && is_float_t (tb)) || ta == tb;
  int no = numeric ? num_order (ta, a, tb, b) : type_order;
  CHECK (sgn (iot_data_compare (x, y)) == (ta == tb ? no : type_order), "compare: type then value order");
  CHECK (sgn (iot_data_compare (y, x)) == -(ta == tb ? no : type_order), "compare is antisymmetric");
  CHECK (sgn (iot_data_compare_value (x, y)) == no, "compare by value is the numeric order");
  CHECK (sgn (iot_data_compare_value (y, x)) == -no, "compare by value is antisymmetric");
  CHECK (iot_data_equal_value (x, y) == (no == 0), "equal by value");
  CHECK (iot_data_equal (x, y) == (ta == tb && no == 0), "equal");
  if (ta == tb && no == 0) CHECK (iot_data_hash (x) == iot_data_hash (y), "equal numbers have equal hashes");
  if (no == 0) symx_cover ("equal"); else symx_cover ("differ");
  iot_data_free (x); iot_data_free (y);
#elif MODE == 1  // pairs of values of any kind
  val_t * a = v_gen (KINDS, INNER, MAXN), * b = v_gen (KINDS, INNER, MAXN);
  iot_data_t * x = v_make (a), * y = v_make (b);
  bool eq = v_eq (a, b);
  if (a->type == b->type && a->type >= IOT_DATA_VECTOR && a->cnt == b->cnt && symx_choice ("hashed", 2)) { iot_data_hash (x); iot_data_hash (y); }   // hashes already known
  CHECK (iot_data_equal (x, y) == eq, "equality is structural equality");
  CHECK ((iot_data_compare (x, y) == 0) == eq, "compare is zero exactly for equal data");
  CHECK (sgn (iot_data_compare (x, y)) == -sgn (iot_data_compare (y, x)), "compare is antisymmetric");
  if (eq) { symx_cover ("equal"); CHECK (iot_data_equal_value (x, y), "equal data are equal by value"); CHECK (iot_data_hash (x) == iot_data_hash (y), "equal data have equal hashes"); }
  else symx_cover ("differ");
  CHECK (sgn (iot_data_compare_value (x, y)) == -sgn (iot_data_compare_value (y, x)), "compare by value is antisymmetric");
  iot_data_free (x); iot_data_free (y);
#elif MODE == 2  // triples: transitivity
  val_t * v[3]; iot_data_t * d[3];
  for (int i = 0; i < 3; i++) { v[i] = v_gen (KINDS, INNER, MAXN); d[i] = v_make (v[i]); }
  bool val = symx_choice ("value", 2);
  int ab = val ? iot_data_compare_value (d[0], d[1]) : iot_data_compare (d[0], d[1]);
  int bc = val ? iot_data_compare_value (d[1], d[2]) : iot_data_compare (d[1], d[2]);
  int ac = val ? iot_data_compare_value (d[0], d[2]) : iot_data_compare (d[0], d[2]);
  if (ab <= 0 && bc <= 0) { symx_cover ("chain"); CHECK (ac <= 0, "compare is transitive"); if (ab < 0 || bc < 0) CHECK (ac < 0, "compare is strictly transitive"); else CHECK (ac == 0, "equality is transitive"); }
  for (int i = 0; i < 3; i++) iot_data_free (d[i]);
#elif MODE == 4  // arrays of any two element types, binary, pointers
  iot_data_t * d[3]; static uint8_t raw[3][16]; unsigned len[3], kind[3]; iot_data_type_t ty[3];
  for (int i = 0; i < 3; i++)
  {
    kind[i] = symx_choice ("kind", 3); len[i] = 0; ty[i] = IOT_DATA_UINT8;
    if (kind[i] == 0) { uintptr_t v = (uintptr_t) symx_input ("ptr", 64); memcpy (raw[i], &v, 8); d[i] = iot_data_alloc_pointer ((void*) v, NULL); len[i] = 8; }
    else
    {
      static const iot_data_type_t ts[] = { IOT_DATA_INT8, IOT_DATA_UINT8, IOT_DATA_FLOAT32, IOT_DATA_UINT64 };
      if (kind[i] == 1) ty[i] = ts[symx_choice ("type", 4)];
      unsigned n = symx_choice ("n", 2) + (i == 2); len[i] = n * num_size[ty[i]];
      for (unsigned k = 0; k < len[i]; k++) raw[i][k] = (k == 0 || k == len[i] - 1) ? (uint8_t) symx_input ("raw", 8) : 7;
      d[i] = kind[i] == 1 ? iot_data_alloc_array (len[i] ? raw[i] : NULL, n, ty[i], IOT_DATA_COPY) : iot_data_alloc_binary (len[i] ? raw[i] : NULL, n, IOT_DATA_COPY);
    }
  }
  bool eq01 = kind[0] == kind[1] && ty[0] == ty[1] && len[0] == len[1];
  for (unsigned k = 0; eq01 && k < len[0]; k++) eq01 = raw[0][k] == raw[1][k];
  CHECK (iot_data_equal (d[0], d[1]) == eq01 && (iot_data_compare (d[0], d[1]) == 0) == eq01, "arrays are equal exactly when of the same type, length and content");
  if (eq01) { CHECK (iot_data_hash (d[0]) == iot_data_hash (d[1]), "equal data have equal hashes"); symx_cover ("equal"); } else symx_cover ("differ");
  CHECK (sgn (iot_data_compare (d[0], d[1])) == -sgn (iot_data_compare (d[1], d[0])), "compare is antisymmetric");
  int ab = iot_data_compare (d[0], d[1]), bc = iot_data_compare (d[1], d[2]), ac = iot_data_compare (d[0], d[2]);
  if (ab <= 0 && bc <= 0) { symx_cover ("chain"); CHECK (ac <= 0, "compare is transitive"); if (ab < 0 || bc < 0) CHECK (ac < 0, "compare is strictly transitive"); }
  for (int i = 0; i < 3; i++) iot_data_free (d[i]);
#else            // strings: lexicographic byte order
  val_t * a = v_new (IOT_DATA_STRING), * b = v_new (IOT_DATA_STRING); v_str (a); v_str (b);
  iot_data_t * x = v_make (a), * y = v_make (b);
  int o = 0;
  for (unsigned i = 0; !o; i++)
  {
    if (i == a->len || i == b->len) { o = a->len == b->len ? 2 : a->len < b->len ? -1 : 1; break; }
    if ((uint8_t) a->s[i] != (uint8_t) b->s[i]) o = (uint8_t) a->s[i] < (uint8_t) b->s[i] ? -1 : 1;
  }
  if (o == 2) o = 0;
  CHECK (sgn (iot_data_compare (x, y)) == o, "strings compare in byte order");
  uint32_t h = 538; for (unsigned i = 0; i < a->len; i++) h = (h * 33u) ^ (uint8_t) a->s[i];
  CHECK (iot_data_hash (x) == h, "string hash");
  symx_cover (o ? "differ" : "equal");
  CHECK (iot_data_compare (NULL, x) < 0 && iot_data_compare (x, NULL) > 0 && iot_data_compare (NULL, NULL) == 0, "NULL sorts first");
  iot_data_free (x); iot_data_free (y);
#endif
  LIVE_END ("no leak");
}
