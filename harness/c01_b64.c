// C01: base64 encode/decode against an independent bit-level oracle
#include "h.h"
#include "iot/base64.h"
#ifndef N
#define N 4
#endif
static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int sym (uint8_t c)   // value of a symbol, by range arithmetic without branches rather than a table
{
  int u = (c >= 'A') & (c <= 'Z'), l = (c >= 'a') & (c <= 'z'), d = (c >= '0') & (c <= '9'), p = c == '+', q = c == '/';
  return u * (c - 'A' + 1) + l * (c - 'a' + 27) + d * (c - '0' + 53) + p * 63 + q * 64 - 1;
}
int main (void)
{
  LIVE0;
#if MODE == 0    // encode: text is the RFC 4648 encoding, decoding it gives the bytes back, buffers respected
  unsigned n = (unsigned) symx_choice ("len", N + 1);
  uint8_t * in = malloc (n ? n : 1); symx_bytes ("in", in, n);
  size_t es = iot_b64_encodesize (n);
  CHECK (es == (size_t) (n + 2) / 3 * 4 + 1, "encoded size is four characters per started group of three bytes, plus the terminator");
  char small[4]; memset (small, 'x', sizeof (small));
  for (unsigned s = 0; s < sizeof (small) && s < es; s++) CHECK (!iot_b64_encode (in, n, small, s) && small[0] == 'x', "encoding into a short buffer is refused and writes nothing");
  char * t = malloc (es);
  CHECK (!iot_b64_encode (in, n, t, es - 1), "one byte short is refused");
  CHECK (iot_b64_encode (in, n, t, es), "encoding into the advertised size succeeds");
  CHECK (strlen (t) == es - 1, "text has the advertised length");
  for (unsigned i = 0; i + 1 < es; i++)
  {
    unsigned bit = i * 6;   // every symbol carries the next six bits of the input, zero filled
    if (bit >= n * 8) { CHECK (t[i] == '=', "padding"); continue; }
    unsigned v = 0;
    for (unsigned k = 0; k < 6; k++) { unsigned p = bit + k; v = v << 1 | (p / 8 < n ? (unsigned) (in[p / 8] >> (7 - p % 8)) & 1u : 0u); }
    CHECK (sym ((uint8_t) t[i]) == (int) v, "symbol carries its six bits");
  }
  size_t ml = iot_b64_maxdecodesize (t);
  CHECK (ml >= n, "maximum decode size covers the data");
#ifdef RT
  size_t ol = ml; uint8_t * out = malloc (ml ? ml : 1);
  CHECK (iot_b64_decode (t, out, &ol) && ol == n, "decoding succeeds with the original length");
  for (unsigned i = 0; i < n; i++) CHECK (out[i] == in[i], "decoding returns the original bytes");
  iot_data_t * a = iot_data_alloc_array_from_base64 (t);
  CHECK (a && iot_data_type (a) == IOT_DATA_ARRAY && iot_data_array_type (a) == IOT_DATA_UINT8 && iot_data_array_length (a) == n, "array from base64");
  for (unsigned i = 0; i < n; i++) CHECK (((const uint8_t*) iot_data_address (a))[i] == in[i], "array from base64 content");
  iot_data_free (a);
  free (out);
#endif
  free (t); free (in);
#else            // decode arbitrary bytes: bounded writes, exact language, exact bits
  unsigned n = (unsigned) symx_choice ("len", N + 1);
  char * s = malloc (n + 1); symx_bytes ("s", s, n); s[n] = 0;
  for (unsigned i = 0; i < n; i++) ASSUME (s[i] != 0);
  uint8_t exp[N + 1]; unsigned ne = 0, nb = 0; uint32_t acc = 0; bool bad = false;
  for (unsigned i = 0; i < n; i++)
  {
    uint8_t c = (uint8_t) s[i];
    if (c == '=') break;
    if (c == '\n') continue;
    int v = sym (c);
    if (v < 0) { bad = true; break; }
    acc = (acc << 6 | (unsigned) v); nb += 6;
    if (nb >= 8) { nb -= 8; exp[ne++] = (uint8_t) (acc >> nb); acc &= (1u << nb) - 1; }
  }
  size_t ml = iot_b64_maxdecodesize (s);
  CHECK (bad || ml >= ne, "maximum decode size covers the data");
  size_t cap = (size_t) symx_choice ("cap", ml + 1), ol = cap;
  uint8_t * out = malloc (cap ? cap : 1);
  bool ok = iot_b64_decode (s, out, &ol);
  CHECK (ok || bad || ne > cap, "valid text that fits is accepted");
  CHECK (!ok || (!bad && ne <= cap), "invalid text, or text that does not fit, is refused");
  if (ok)
  {
    CHECK (ol == ne, "decoded length");
    for (unsigned i = 0; i < ne; i++) CHECK (out[i] == exp[i], "decoded bytes");
    symx_cover ("ok");
  }
  else symx_cover ("refused");
  free (out);
  iot_data_t * a = iot_data_alloc_array_from_base64 (s);
  CHECK ((a != NULL) == !bad, "array from base64 exactly for valid text");
  if (a) { CHECK (iot_data_array_length (a) == ne, "array length"); for (unsigned i = 0; i < ne; i++) CHECK (((const uint8_t*) iot_data_address (a))[i] == exp[i], "array bytes"); }
  iot_data_free (a);
  free (s);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
