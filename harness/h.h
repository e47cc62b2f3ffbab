// shared helpers for the harnesses
#ifndef H_H
#define H_H
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <float.h>
#include "iot/data.h"
#include "symx.h"
#define LIVE0 uint64_t live0_ = symx_live ()
#define LIVE_END(m) CHECK (symx_live () == live0_, m)
#define STR(s) iot_data_alloc_string (s, IOT_DATA_COPY)

typedef union { int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f32; double f64; bool b; uint8_t raw[8]; } num_t;

static inline num_t num_in (const char * n, iot_data_type_t t)
{
  static const uint8_t bits[] = { 8, 8, 16, 16, 32, 32, 64, 64, 32, 64, 1 };
  num_t v; v.u64 = symx_input (n, bits[t]); return v;
}
static inline iot_data_t * num_alloc (iot_data_type_t t, num_t v)
{
  switch (t)
  {
    case IOT_DATA_INT8: return iot_data_alloc_i8 (v.i8);
    case IOT_DATA_UINT8: return iot_data_alloc_ui8 (v.u8);
    case IOT_DATA_INT16: return iot_data_alloc_i16 (v.i16);
    case IOT_DATA_UINT16: return iot_data_alloc_ui16 (v.u16);
    case IOT_DATA_INT32: return iot_data_alloc_i32 (v.i32);
    case IOT_DATA_UINT32: return iot_data_alloc_ui32 (v.u32);
    case IOT_DATA_INT64: return iot_data_alloc_i64 (v.i64);
    case IOT_DATA_UINT64: return iot_data_alloc_ui64 (v.u64);
    case IOT_DATA_FLOAT32: return iot_data_alloc_f32 (v.f32);
    case IOT_DATA_FLOAT64: return iot_data_alloc_f64 (v.f64);
    default: return iot_data_alloc_bool (v.b);
  }
}
static const uint8_t num_size[] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1 };
static inline bool is_int_t (iot_data_type_t t) { return t <= IOT_DATA_UINT64; }
static inline bool is_signed_t (iot_data_type_t t) { return is_int_t (t) && !(t & 1); }
static inline bool is_float_t (iot_data_type_t t) { return t == IOT_DATA_FLOAT32 || t == IOT_DATA_FLOAT64; }

// exact integer value as (negative?, two's complement 64 bits)
typedef struct { bool neg; uint64_t v; } int_t;
static inline int_t int_of (iot_data_type_t t, num_t n)
{
  int64_t s = 0;
  switch (t)
  {
    case IOT_DATA_INT8: s = n.i8; break;
    case IOT_DATA_UINT8: s = n.u8; break;
    case IOT_DATA_INT16: s = n.i16; break;
    case IOT_DATA_UINT16: s = n.u16; break;
    case IOT_DATA_INT32: s = n.i32; break;
    case IOT_DATA_UINT32: s = n.u32; break;
    case IOT_DATA_INT64: s = n.i64; break;
    case IOT_DATA_BOOL: s = n.b; break;
    default: { int_t r = { false, n.u64 }; return r; }
  }
  int_t r = { s < 0, (uint64_t) s }; return r;
}

// reference conversion: true when the value of n (of type 'from') is representable in 'to' (fractions are truncated)
static inline bool num_convert (iot_data_type_t from, num_t n, iot_data_type_t to, num_t * out)
{
  static const uint64_t umax[] = { INT8_MAX, UINT8_MAX, INT16_MAX, UINT16_MAX, INT32_MAX, UINT32_MAX, INT64_MAX, UINT64_MAX };
  out->u64 = 0;
  if (is_float_t (from))
  {
    double d = from == IOT_DATA_FLOAT32 ? n.f32 : n.f64;
    if (to == IOT_DATA_FLOAT64) { out->f64 = d; return true; }
    if (to == IOT_DATA_FLOAT32) { if (d > FLT_MAX || d < -FLT_MAX) return false; out->f32 = (float) d; return true; }
    if (to == IOT_DATA_BOOL) { out->b = d != 0.0; return true; }
    if (d != d) return false;
    switch (to)
    {
      case IOT_DATA_INT8: if (!(d >= -128.0 && d <= 127.0)) return false; out->i8 = (int8_t) d; return true;
      case IOT_DATA_UINT8: if (!(d >= 0.0 && d <= 255.0)) return false; out->u8 = (uint8_t) d; return true;
      case IOT_DATA_INT16: if (!(d >= -32768.0 && d <= 32767.0)) return false; out->i16 = (int16_t) d; return true;
      case IOT_DATA_UINT16: if (!(d >= 0.0 && d <= 65535.0)) return false; out->u16 = (uint16_t) d; return true;
      case IOT_DATA_INT32: if (!(d >= -2147483648.0 && d <= 2147483647.0)) return false; out->i32 = (int32_t) d; return true;
      case IOT_DATA_UINT32: if (!(d >= 0.0 && d <= 4294967295.0)) return false; out->u32 = (uint32_t) d; return true;
      case IOT_DATA_INT64: if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return false; out->i64 = (int64_t) d; return true;
      default: if (!(d >= 0.0 && d < 18446744073709551616.0)) return false; out->u64 = (uint64_t) d; return true;
    }
  }
  int_t v = int_of (from, n);
  if (to == IOT_DATA_BOOL) { out->b = v.v != 0; return true; }
  if (to == IOT_DATA_FLOAT32) { out->f32 = v.neg ? (float) (int64_t) v.v : (float) v.v; return true; }
  if (to == IOT_DATA_FLOAT64) { out->f64 = v.neg ? (double) (int64_t) v.v : (double) v.v; return true; }
  if (v.neg)
  {
    if (!is_signed_t (to)) return false;
    int64_t lo = to == IOT_DATA_INT8 ? INT8_MIN : to == IOT_DATA_INT16 ? INT16_MIN : to == IOT_DATA_INT32 ? INT32_MIN : INT64_MIN;
    if ((int64_t) v.v < lo) return false;
  }
  else if (v.v > umax[to]) return false;
  memcpy (out->raw, &v.v, num_size[to]);
  return true;
}
static inline bool num_same (iot_data_type_t t, num_t a, num_t b)
{
  if (t == IOT_DATA_FLOAT32) return a.f32 == b.f32 || (a.f32 != a.f32 && b.f32 != b.f32);
  if (t == IOT_DATA_FLOAT64) return a.f64 == b.f64 || (a.f64 != a.f64 && b.f64 != b.f64);
  switch (num_size[t]) { case 1: return a.u8 == b.u8; case 2: return a.u16 == b.u16; case 4: return a.u32 == b.u32; default: return a.u64 == b.u64; }
}
#endif
