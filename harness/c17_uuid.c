// C17: generated UUIDs are version 4, consist of the generator's 122 random bits, and format canonically
#include "h.h"
#include "iot/uuid.h"
#include "iot/util.h"
#include <pthread.h>
#define HEXD(v) ('0' + (v) + ((v) > 9) * 39)
static uint64_t seed[2];
static int tries, fails;
long sx_getrandom (void * p, size_t n, unsigned f)
{
  (void) f; (void) n;
  if (tries < fails) { tries++; if (symx_choice ("eintr", 2)) { memset (p, 0, 8); return 8; } return -1; }
  memcpy (p, seed, sizeof (seed)); return (long) sizeof (seed);
}
int sx_nanosleep (const struct timespec * a, struct timespec * b) { (void) a; (void) b; return 0; }
static void next (uint64_t * s, uint64_t * out)  // xorshift128+ of the given state
{
  uint64_t a = s[0], b = s[1];
  s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); *out = s[1] + b;
}
#if MODE == 2
static iot_uuid_t res[3];
static void * gen (void * a) { iot_uuid_generate (res[(intptr_t) a]); return NULL; }
#endif
int main (void)
{
  LIVE0;
#if MODE == 0     // generation
  seed[0] = IN_U64 ("s0"); seed[1] = IN_U64 ("s1"); fails = (int) symx_choice ("fails", 3);
  uint64_t st[2] = { seed[0], seed[1] };
  iot_uuid_t first;
  for (int i = 0; i < 3; i++)
  {
    iot_uuid_t u; iot_uuid_generate (u);
    uint64_t w[2]; next (st, &w[0]); next (st, &w[1]);
    uint8_t e[16]; memcpy (e, w, 16);
    CHECK ((u[6] & 0xf0) == 0x40, "version is 4");
    CHECK ((u[8] & 0xc0) == 0x80, "variant is RFC 4122");
    for (int k = 0; k < 16; k++) CHECK (k == 6 ? (u[k] & 0xf) == (e[k] & 0xf) : k == 8 ? (u[k] & 0x3f) == (e[k] & 0x3f) : u[k] == e[k], "the other 122 bits come from the seeded generator");
    if (i == 0) memcpy (first, u, 16);
  }
  CHECK (tries == fails, "every failed read of the random source is retried");
  symx_cover ("end");
#elif MODE == 1   // formatting and recognition
  iot_uuid_t u; for (int i = 0; i < 16; i++) u[i] = (uint8_t) (i * 37 + 5);
  u[symx_choice ("which", 16)] = IN_U8 ("u");
  char t[37]; memset (t, 'x', sizeof (t)); iot_uuid_unparse (u, t);
  unsigned p = 0;
  for (int i = 0; i < 16; i++)
  {
    if (i == 4 || i == 6 || i == 8 || i == 10) CHECK (t[p++] == '-', "dash positions");
    CHECK (t[p] == HEXD (u[i] >> 4) && t[p + 1] == HEXD (u[i] & 15), "hex digits"); p += 2;
  }
  CHECK (p == 36 && t[36] == 0, "36 characters and terminator");
  CHECK (iot_util_string_is_uuid (t), "formatted uuid is recognised");
  // one changed character
  unsigned at = (unsigned) symx_choice ("at", 37); uint8_t c = IN_U8 ("c"); t[at] = (char) c;
  bool dash = at == 8 || at == 13 || at == 18 || at == 23;
  bool hex = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
  if (at == 36) { char l[38]; memcpy (l, t, 37); l[37] = 0; CHECK (iot_util_string_is_uuid (l) == (c == 0), "length must be 36"); }
  else CHECK (iot_util_string_is_uuid (t) == (dash ? c == '-' : hex), "recognised exactly when of canonical form");
  CHECK (!iot_util_string_is_uuid (NULL) && !iot_util_string_is_uuid (""), "empty is not a uuid");
  iot_data_t * d = iot_data_alloc_uuid (); CHECK (iot_data_type (d) == IOT_DATA_BINARY || iot_data_type (d) == IOT_DATA_ARRAY, "uuid as binary"); CHECK (iot_data_array_length (d) == 16 && (((const uint8_t*) iot_data_address (d))[6] >> 4) == 4, "uuid data");
  iot_data_free (d);
  d = iot_data_alloc_uuid_string (); CHECK (iot_data_type (d) == IOT_DATA_STRING && iot_util_string_is_uuid (iot_data_string (d)) && iot_data_string (d)[14] == '4', "uuid string"); iot_data_free (d);
  symx_cover ("end");
#else             // concurrent generation: distinct positions of one random stream
  seed[0] = 0x0123456789abcdefULL; seed[1] = 0xfedcba9876543210ULL; fails = (int) symx_choice ("fails", 2);
  symx_preempt (2);
  pthread_t a, b; pthread_create (&a, NULL, gen, (void*) 0); pthread_create (&b, NULL, gen, (void*) 1); gen ((void*) 2);
  pthread_join (a, NULL); pthread_join (b, NULL);
  uint64_t st[2] = { seed[0], seed[1] }; unsigned seen = 0;
  for (int i = 0; i < 3; i++)
  {
    uint64_t w[2]; next (st, &w[0]); next (st, &w[1]); uint8_t e[16]; memcpy (e, w, 16); e[6] = (e[6] & 0xf) | 0x40; e[8] = (e[8] & 0x3f) | 0x80;
    for (unsigned k = 0; k < 3; k++) if (memcmp (res[k], e, 16) == 0) seen |= 1u << k;
  }
  CHECK (seen == 7, "each caller gets its own value of the stream, none is handed out twice or lost");
  symx_cover ("end");
#endif
  LIVE_END ("no leak");
}
