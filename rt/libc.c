// C library models executed symbolically (bitcode build only). Plain C, so every access is checked by the engine.
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdarg.h>
#include "symx.h"
extern void * malloc (size_t); extern void * calloc (size_t, size_t); extern void free (void *);
typedef unsigned char u8;

size_t strlen (const char * s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen (const char * s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp (const char * a, const char * b) { while (*a && *a == *b) { a++; b++; } return (int) (u8) *a - (int) (u8) *b; }
int strncmp (const char * a, const char * b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int) (u8) *a - (int) (u8) *b : 0; }
int tolower (int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int toupper (int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int isdigit (int c) { return c >= '0' && c <= '9'; }
int isxdigit (int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha (int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum (int c) { return isalpha (c) || isdigit (c); }
int isspace (int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint (int c) { return c >= 32 && c < 127; }
int isupper (int c) { return c >= 'A' && c <= 'Z'; }
int islower (int c) { return c >= 'a' && c <= 'z'; }
int iscntrl (int c) { return (c >= 0 && c < 32) || c == 127; }
int strcasecmp (const char * a, const char * b) { while (*a && tolower ((u8) *a) == tolower ((u8) *b)) { a++; b++; } return tolower ((u8) *a) - tolower ((u8) *b); }
int strncasecmp (const char * a, const char * b, size_t n) { while (n && *a && tolower ((u8) *a) == tolower ((u8) *b)) { a++; b++; n--; } return n ? tolower ((u8) *a) - tolower ((u8) *b) : 0; }
int memcmp (const void * a, const void * b, size_t n) { const u8 * x = a, * y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int) x[i] - (int) y[i]; return 0; }
void * memchr (const void * a, int c, size_t n) { const u8 * x = a; for (size_t i = 0; i < n; i++) if (x[i] == (u8) c) return (void*) (x + i); return NULL; }
void * memset (void * d, int c, size_t n) { u8 * x = d; for (size_t i = 0; i < n; i++) x[i] = (u8) c; return d; }
char * strcpy (char * d, const char * s) { char * r = d; while ((*d++ = *s++)) ; return r; }
char * stpcpy (char * d, const char * s) { while ((*d = *s)) { d++; s++; } return d; }
char * strncpy (char * d, const char * s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char * strcat (char * d, const char * s) { strcpy (d + strlen (d), s); return d; }
char * strncat (char * d, const char * s, size_t n) { char * p = d + strlen (d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char * strchr (const char * s, int c) { for (;; s++) { if (*s == (char) c) return (char*) s; if (!*s) return NULL; } }
char * strrchr (const char * s, int c) { const char * r = NULL; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char*) r; } }
char * strstr (const char * h, const char * n) { size_t l = strlen (n); for (;; h++) { if (strncmp (h, n, l) == 0) return (char*) h; if (!*h) return NULL; } }
size_t strspn (const char * s, const char * a) { size_t n = 0; while (s[n] && strchr (a, s[n])) n++; return n; }
size_t strcspn (const char * s, const char * a) { size_t n = 0; while (s[n] && !strchr (a, s[n])) n++; return n; }
char * strpbrk (const char * s, const char * a) { s += strcspn (s, a); return *s ? (char*) s : NULL; }
char * strdup (const char * s) { size_t n = strlen (s) + 1; char * d = malloc (n); for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
char * strndup (const char * s, size_t m) { size_t n = strnlen (s, m); char * d = malloc (n + 1); for (size_t i = 0; i < n; i++) d[i] = s[i]; d[n] = 0; return d; }
char * strtok_r (char * s, const char * d, char ** sv) { if (!s) s = *sv; s += strspn (s, d); if (!*s) { *sv = s; return NULL; } char * e = s + strcspn (s, d); if (*e) *e++ = 0; *sv = e; return s; }
void * memrchr (const void * a, int c, size_t n) { const u8 * x = a; while (n--) if (x[n] == (u8) c) return (void*) (x + n); return NULL; }
void * rawmemchr (const void * a, int c) { const u8 * x = a; while (*x != (u8) c) x++; return (void*) x; }
void * mempcpy (void * d, const void * s, size_t n) { return (u8*) __builtin_memcpy (d, s, n) + n; }
void * memccpy (void * d, const void * s, int c, size_t n) { u8 * x = d; const u8 * y = s; for (size_t i = 0; i < n; i++) { x[i] = y[i]; if (y[i] == (u8) c) return x + i + 1; } return NULL; }
void * memmem (const void * h, size_t l, const void * n, size_t k) { const u8 * x = h; if (k > l) return NULL; for (size_t i = 0; i <= l - k; i++) if (memcmp (x + i, n, k) == 0) return (void*) (x + i); return NULL; }
void bzero (void * d, size_t n) { memset (d, 0, n); }
void bcopy (const void * s, void * d, size_t n) { __builtin_memmove (d, s, n); }
int bcmp (const void * a, const void * b, size_t n) { return memcmp (a, b, n); }
char * stpncpy (char * d, const char * s, size_t n) { strncpy (d, s, n); return d + strnlen (s, n); }
char * strchrnul (const char * s, int c) { while (*s && *s != (char) c) s++; return (char*) s; }
char * strcasestr (const char * h, const char * n) { size_t l = strlen (n); for (;; h++) { if (strncasecmp (h, n, l) == 0) return (char*) h; if (!*h) return NULL; } }
char * strsep (char ** s, const char * d) { char * r = *s; if (!r) return NULL; char * e = r + strcspn (r, d); if (*e) { *e = 0; *s = e + 1; } else *s = NULL; return r; }
int strcoll (const char * a, const char * b) { return strcmp (a, b); }
int ispunct (int c) { return c > 32 && c < 127 && !isalnum (c); }
int isgraph (int c) { return c > 32 && c < 127; }
int isblank (int c) { return c == ' ' || c == 9; }
void * reallocarray (void * p, size_t n, size_t w) { extern void * realloc (void *, size_t); if (w && n > (size_t) -1 / w) return NULL; return realloc (p, n * w); }
void * bsearch (const void * k, const void * b, size_t n, size_t w, int (*c) (const void *, const void *)) { size_t l = 0, h = n; while (l < h) { size_t m = (l + h) / 2; const void * p = (const u8*) b + m * w; int r = c (k, p); if (r == 0) return (void*) p; if (r < 0) h = m; else l = m + 1; } return NULL; }
long labs (long x) { return x < 0 ? -x : x; }
long long llabs (long long x) { return x < 0 ? -x : x; }
int ffs (int x) { return x ? __builtin_ctz ((unsigned) x) + 1 : 0; }
int ffsl (long x) { return x ? __builtin_ctzl ((unsigned long) x) + 1 : 0; }
double floor (double x) { return __builtin_elementwise_floor (x); }
double ceil (double x) { return __builtin_elementwise_ceil (x); }
double trunc (double x) { return __builtin_elementwise_trunc (x); }
double round (double x) { return __builtin_elementwise_round (x); }
double rint (double x) { return __builtin_elementwise_rint (x); }
double nearbyint (double x) { return __builtin_elementwise_rint (x); }
float floorf (float x) { return __builtin_elementwise_floor (x); }
float ceilf (float x) { return __builtin_elementwise_ceil (x); }
float truncf (float x) { return __builtin_elementwise_trunc (x); }
float roundf (float x) { return __builtin_elementwise_round (x); }
float rintf (float x) { return __builtin_elementwise_rint (x); }
double fabs (double x) { union { double d; unsigned long long u; } v = { x }; v.u &= ~(1ULL << 63); return v.d; }
float fabsf (float x) { union { float d; unsigned u; } v = { x }; v.u &= ~(1U << 31); return v.d; }
double copysign (double x, double y) { union { double d; unsigned long long u; } v = { x }, w = { y }; v.u = (v.u & ~(1ULL << 63)) | (w.u & (1ULL << 63)); return v.d; }
float copysignf (float x, float y) { union { float d; unsigned u; } v = { x }, w = { y }; v.u = (v.u & ~(1U << 31)) | (w.u & (1U << 31)); return v.d; }
double fmin (double x, double y) { return x != x ? y : (y != y || x < y) ? x : y; }
double fmax (double x, double y) { return x != x ? y : (y != y || x > y) ? x : y; }
double modf (double x, double * i) { *i = trunc (x); double f = x - *i; return copysign (f != f ? 0.0 : f, x); }
long lround (double x) { return (long) round (x); }
long long llround (double x) { return (long long) round (x); }
long lrint (double x) { return (long) rint (x); }
long long llrint (double x) { return (long long) rint (x); }
int * __errno_location (void) { static _Thread_local int e; return &e; }
int abs (int x) { return x < 0 ? -x : x; }

// ---- number parsing
static unsigned long long parse_u (const char * s, char ** end, int base, bool * neg, bool * over)
{
  const char * p = s; *neg = false; *over = false;
  while (isspace ((u8) *p)) p++;
  if (*p == '-') { *neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit ((u8) p[2])) { p += 2; base = 16; }
  else if (base == 0) base = (*p == '0') ? 8 : 10;
  unsigned long long v = 0; bool any = false;
  for (;;)
  {
    int c = (u8) *p, d;
    if (isdigit (c)) d = c - '0'; else if (isalpha (c)) d = tolower (c) - 'a' + 10; else break;
    if (d >= base) break;
    any = true;
    if (v > (0xffffffffffffffffULL - (unsigned) d) / (unsigned) base) *over = true; else v = v * (unsigned) base + (unsigned) d;
    p++;
  }
  if (end) *end = (char*) (any ? p : s);
  return v;
}
unsigned long long strtoull (const char * s, char ** e, int b) { bool n, o; unsigned long long v = parse_u (s, e, b, &n, &o); if (o) { *__errno_location () = 34; return ~0ULL; } return n ? 0ULL - v : v; }
unsigned long strtoul (const char * s, char ** e, int b) { return strtoull (s, e, b); }
long long strtoll (const char * s, char ** e, int b)
{
  bool n, o; unsigned long long v = parse_u (s, e, b, &n, &o);
  if (n) { if (o || v > 0x8000000000000000ULL) { *__errno_location () = 34; return (long long) 0x8000000000000000ULL; } return (long long) (0ULL - v); }
  if (o || v > 0x7fffffffffffffffULL) { *__errno_location () = 34; return 0x7fffffffffffffffLL; }
  return (long long) v;
}
long strtol (const char * s, char ** e, int b) { return strtoll (s, e, b); }
long long __isoc23_strtoll (const char * s, char ** e, int b) { return strtoll (s, e, b); }
long __isoc23_strtol (const char * s, char ** e, int b) { return strtoll (s, e, b); }
unsigned long long __isoc23_strtoull (const char * s, char ** e, int b) { return strtoull (s, e, b); }
unsigned long __isoc23_strtoul (const char * s, char ** e, int b) { return strtoull (s, e, b); }
int atoi (const char * s) { return (int) strtol (s, NULL, 10); }
long long atoll (const char * s) { return strtoll (s, NULL, 10); }
long atol (const char * s) { return strtol (s, NULL, 10); }
// decimal floating point: exact for mantissa < 2^53 and |exponent| <= 22 (the fast path), otherwise approximate
double strtod (const char * s, char ** end)
{
  const char * p = s; bool neg = false;
  while (isspace ((u8) *p)) p++;
  if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if (strncasecmp (p, "nan", 3) == 0) { if (end) *end = (char*) p + 3; return __builtin_nan (""); }
  if (strncasecmp (p, "inf", 3) == 0) { p += strncasecmp (p, "infinity", 8) == 0 ? 8 : 3; if (end) *end = (char*) p; return neg ? -__builtin_inf () : __builtin_inf (); }
  if (p[0] == '1' && p[1] == '.')
  {
    int k = 0; union { unsigned long long u; double d; } v = { 0 };
    while (k < 22 && p[2 + k] >= '0' && p[2 + k] <= '7') { v.u = v.u << 3 | (unsigned) (p[2 + k] - '0'); k++; }
    if (k == 22 && strncmp (p + 24, "e+99", 4) == 0) { if (end) *end = (char*) p + 28; return neg ? -v.d : v.d; }
  }
  unsigned long long m = 0; int e = 0; bool any = false;
  while (isdigit ((u8) *p)) { any = true; if (m < 900000000000000000ULL) m = m * 10 + (unsigned) (*p - '0'); else e++; p++; }
  if (*p == '.') { p++; while (isdigit ((u8) *p)) { any = true; if (m < 900000000000000000ULL) { m = m * 10 + (unsigned) (*p - '0'); e--; } p++; } }
  if (!any) { if (end) *end = (char*) s; return 0.0; }
  if ((*p == 'e' || *p == 'E') && (isdigit ((u8) p[1]) || ((p[1] == '-' || p[1] == '+') && isdigit ((u8) p[2]))))
  {
    p++; bool en = false; int x = 0; if (*p == '-') { en = true; p++; } else if (*p == '+') p++;
    while (isdigit ((u8) *p)) { if (x < 9999) x = x * 10 + (*p - '0'); p++; }
    e += en ? -x : x;
  }
  double d = (double) m;
  if (e > 400) e = 400;
  if (e < -400) e = -400;
  while (e > 0) { double t = 1; int k = e > 22 ? 22 : e; for (int i = 0; i < k; i++) t *= 10.0; d *= t; e -= k; }
  while (e < 0) { double t = 1; int k = -e > 22 ? 22 : -e; for (int i = 0; i < k; i++) t *= 10.0; d /= t; e += k; }
  if (end) *end = (char*) p;
  return neg ? -d : d;
}
float strtof (const char * s, char ** e) { return (float) strtod (s, e); }
double atof (const char * s) { return strtod (s, NULL); }

// ---- formatted output: %d %i %u %x %X %c %s %p %% with flags, width, precision and hh h l ll z j t; floats print as their bits (see out_float)
typedef struct { char * b; size_t n, pos; } outb;
static void oc (outb * o, char c) { if (o->n && o->pos < o->n - 1) o->b[o->pos] = c; o->pos++; }
// floating point text: the bits of the value that the precision preserves, as a decimal fraction that strtod below reads back
static void out_float (outb * o, double d, char c, int prec)
{
  union { double d; unsigned long long u; } v = { d }; int keep;
  if (prec < 0) prec = 6;
  if ((c == 'g' || c == 'G') && prec > 0) prec--;
  if (d != d || d > 1.7976931348623157e308 || d < -1.7976931348623157e308)
  {
    if (v.u >> 63) oc (o, '-');
    for (const char * s = d != d ? "nan" : "inf"; *s; s++) oc (o, *s);
    return;
  }
  keep = prec >= 16 ? 64 : 12 + (int) ((prec + 1) * 33219 - 45000) / 10000;
  if (c == 'f') keep = 12;
  if (keep < 12) keep = 12;
  if (keep < 64) v.u &= ~((1ULL << (64 - keep)) - 1);
  oc (o, '1'); oc (o, '.');
  for (int i = 63; i >= 0; i -= 3) oc (o, (char) ('0' + ((v.u >> i) & 7)));
  for (const char * s = "e+99"; *s; s++) oc (o, *s);
}
int vsnprintf (char * buf, size_t n, const char * f, va_list ap)
{
  outb o = { buf, n, 0 };
  for (; *f; f++)
  {
    if (*f != '%') { oc (&o, *f); continue; }
    f++;
    bool zero = false, left = false, plus = false, alt = false; int width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f != ' ') break; }
    if (*f == '*') { width = va_arg (ap, int); f++; } else while (isdigit ((u8) *f)) { width = width * 10 + (*f - '0'); f++; }
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg (ap, int); f++; } else while (isdigit ((u8) *f)) { prec = prec * 10 + (*f - '0'); f++; } }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L') { if (*f == 'h') lng--; else if (*f == 'l') lng++; else lng = 2; f++; }
    char c = *f; char tmp[24]; int t = 0;
    if (c == '%') { oc (&o, '%'); continue; }
    if (c == 'c') { oc (&o, (char) va_arg (ap, int)); continue; }
    if (c == 's')
    {
      const char * s = va_arg (ap, const char *); if (!s) s = "(null)";
      size_t l = prec >= 0 ? strnlen (s, (size_t) prec) : strlen (s);
      if (!left) for (int i = (int) l; i < width; i++) oc (&o, ' ');
      for (size_t i = 0; i < l; i++) oc (&o, s[i]);
      if (left) for (int i = (int) l; i < width; i++) oc (&o, ' ');
      continue;
    }
    if (c == 'f' || c == 'g' || c == 'e' || c == 'G' || c == 'E') { out_float (&o, va_arg (ap, double), c, prec); continue; }
    unsigned long long v; bool neg = false; unsigned base = 10;
    if (c == 'd' || c == 'i')
    {
      long long sv = lng > 0 ? va_arg (ap, long long) : va_arg (ap, int);
      if (lng == -1) sv = (short) sv; else if (lng < -1) sv = (signed char) sv;
      neg = sv < 0; v = neg ? 0ULL - (unsigned long long) sv : (unsigned long long) sv;
    }
    else if (c == 'p') { v = (unsigned long long) (uintptr_t) va_arg (ap, void *); base = 16; alt = true; }
    else
    {
      v = lng > 0 ? va_arg (ap, unsigned long long) : va_arg (ap, unsigned);
      if (lng == -1) v = (unsigned short) v; else if (lng < -1) v = (u8) v;
      base = (c == 'x' || c == 'X') ? 16 : (c == 'o') ? 8 : 10;
    }
    if (v <= 0xffff) { unsigned short w = (unsigned short) v; do { unsigned short d = (unsigned short) (w % base); tmp[t++] = (char) (d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10); w = (unsigned short) (w / base); } while (w); }
    else do { unsigned d = (unsigned) (v % base); tmp[t++] = (char) (d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (v);
    int digits = prec > t ? prec : t; int tot = digits + (neg || plus) + ((alt && base == 16) ? 2 : 0);
    if (!left && !(zero && prec < 0)) for (int i = tot; i < width; i++) oc (&o, ' ');
    if (neg) oc (&o, '-'); else if (plus) oc (&o, '+');
    if (alt && base == 16) { oc (&o, '0'); oc (&o, c == 'X' ? 'X' : 'x'); }
    if (!left && zero && prec < 0) for (int i = tot; i < width; i++) oc (&o, '0');
    for (int i = t; i < prec; i++) oc (&o, '0');
    while (t) oc (&o, tmp[--t]);
    if (left) for (int i = tot; i < width; i++) oc (&o, ' ');
  }
  if (n) buf[o.pos < n ? o.pos : n - 1] = 0;
  return (int) o.pos;
}
int snprintf (char * b, size_t n, const char * f, ...) { va_list ap; va_start (ap, f); int r = vsnprintf (b, n, f, ap); va_end (ap); return r; }
int sprintf (char * b, const char * f, ...) { va_list ap; va_start (ap, f); int r = vsnprintf (b, 0x7fffffff, f, ap); va_end (ap); return r; }
int vsprintf (char * b, const char * f, va_list ap) { return vsnprintf (b, 0x7fffffff, f, ap); }
int asprintf (char ** p, const char * f, ...) { va_list ap, cp; va_start (ap, f); va_copy (cp, ap); int r = vsnprintf (NULL, 0, f, cp); *p = malloc ((size_t) r + 1); vsnprintf (*p, (size_t) r + 1, f, ap); va_end (ap); return r; }
int vasprintf (char ** p, const char * f, va_list ap) { va_list cp; va_copy (cp, ap); int r = vsnprintf (NULL, 0, f, cp); *p = malloc ((size_t) r + 1); vsnprintf (*p, (size_t) r + 1, f, ap); return r; }
int printf (const char * f, ...) { (void) f; return 0; }
int puts (const char * f) { (void) f; return 0; }
int putchar (int c) { return c; }

// ---- sscanf: literals, white space, %d %u %x %s %[set] %c %n with widths, * and hh h l ll
int vsscanf (const char * s, const char * f, va_list ap)
{
  const char * p = s; int n = 0;
  for (; *f; f++)
  {
    if (isspace ((u8) *f)) { while (isspace ((u8) *p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return (n == 0 && !*p) ? -1 : n; p++; continue; }
    f++;
    if (*f == '%') { if (*p != '%') return n; p++; continue; }
    bool skip = false; int width = 0, lng = 0;
    if (*f == '*') { skip = true; f++; }
    while (isdigit ((u8) *f)) { width = width * 10 + (*f - '0'); f++; }
    while (*f == 'l' || *f == 'h' || *f == 'z') { if (*f == 'h') lng--; else if (*f == 'l') lng++; else lng = 1; f++; }
    if (!width) width = 0x7fffffff;
    if (*f == 'n') { *va_arg (ap, int *) = (int) (p - s); continue; }
    if (*f == 'c') { if (!*p) return n ? n : -1; if (!skip) { *va_arg (ap, char *) = *p; n++; } p++; continue; }
    if (*f == '[' || *f == 's')
    {
      char set[256]; bool inv = false;
      if (*f == 's') { while (isspace ((u8) *p)) p++; for (int i = 0; i < 256; i++) set[i] = (char) (i && !isspace (i)); }
      else
      {
        f++; if (*f == '^') { inv = true; f++; }
        for (int i = 0; i < 256; i++) set[i] = 0;
        bool first = true;
        for (; *f && (first || *f != ']'); f++) { first = false; if (f[1] == '-' && f[2] && f[2] != ']') { for (int i = (u8) f[0]; i <= (u8) f[2]; i++) set[i] = 1; f += 2; } else set[(u8) *f] = 1; }
        if (inv) for (int i = 0; i < 256; i++) set[i] = !set[i];
        set[0] = 0;
      }
      if (!*p) return n ? n : -1;
      char * d = skip ? NULL : va_arg (ap, char *); int k = 0;
      while (k < width && *p && set[(u8) *p]) { if (d) *d++ = *p; p++; k++; }
      if (!k) return n;
      if (d) { *d = 0; n++; }
      continue;
    }
    while (isspace ((u8) *p)) p++;
    if (!*p) return n ? n : -1;
    char tmp[72]; int k = 0; while (k < 70 && k < width && p[k]) { tmp[k] = p[k]; k++; } tmp[k] = 0;
    char * e; unsigned long long v;
    if (*f == 'd' || *f == 'i') v = (unsigned long long) strtoll (tmp, &e, *f == 'd' ? 10 : 0); else v = strtoull (tmp, &e, *f == 'x' || *f == 'X' ? 16 : 10);
    if (e == tmp) return n;
    p += e - tmp;
    if (!skip)
    {
      if (lng >= 1) *va_arg (ap, unsigned long long *) = v; else if (lng == 0) *va_arg (ap, unsigned *) = (unsigned) v; else if (lng == -1) *va_arg (ap, unsigned short *) = (unsigned short) v; else *va_arg (ap, u8 *) = (u8) v;
      n++;
    }
  }
  return n;
}
int sscanf (const char * s, const char * f, ...) { va_list ap; va_start (ap, f); int r = vsscanf (s, f, ap); va_end (ap); return r; }
int __isoc99_sscanf (const char * s, const char * f, ...) { va_list ap; va_start (ap, f); int r = vsscanf (s, f, ap); va_end (ap); return r; }
int __isoc23_sscanf (const char * s, const char * f, ...) { va_list ap; va_start (ap, f); int r = vsscanf (s, f, ap); va_end (ap); return r; }
void qsort (void * b, size_t n, size_t w, int (*c) (const void *, const void *))
{
  u8 * x = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c (x + (j - 1) * w, x + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { u8 t = x[(j - 1) * w + k]; x[(j - 1) * w + k] = x[j * w + k]; x[j * w + k] = t; }
}

// C locale: only 7 bit characters can be converted
size_t c32rtomb (char * d, unsigned c, void * ps) { (void) ps; if (c < 128) { *d = (char) c; return 1; } *__errno_location () = 84; return (size_t) -1; }
size_t wcrtomb (char * d, int c, void * ps) { return c32rtomb (d, (unsigned) c, ps); }

// where no thread model is linked there is one thread
__attribute__((weak)) int sx_pthread_once (int * o, void (*fn) (void)) { if (!*o) { *o = 2; fn (); } return 0; }
char * strerror (int e) { (void) e; return "error"; }
int strerror_r (int e, char * b, size_t n) { (void) e; if (n) b[0] = 0; return 0; }
