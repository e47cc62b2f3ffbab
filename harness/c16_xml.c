// XML text to data
#include "h.h"
#include <stdio.h>
#ifndef N
#define N 3
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
static char doc[512]; static unsigned dn;
static void put (const char * s) { while (*s) doc[dn++] = *s++; doc[dn] = 0; }
static void putc1 (char c) { doc[dn++] = c; doc[dn] = 0; }
#if MODE == 1
// which part has full variety: 1 names and space, 2 attribute values, 4 text, 8 nesting, 16 what precedes and follows
static bool nested;
static iot_data_t * skey (const char * k) { return iot_data_alloc_string (k, IOT_DATA_COPY); }
static bool name_start (uint8_t c) { return ((c | 32) >= 'a' && (c | 32) <= 'z') || c == ':' || c == '_' || c >= 128; }
static void gen_name (char * t, char first)
{
  unsigned n = 0;
  if ((FOCUS & 1) && first != '_' && symx_choice ("name", 2))
  {
    t[n] = (char) symx_input ("ch", 8); ASSUME (name_start ((uint8_t) t[n])); n++;
    t[n] = (char) symx_input ("ch", 8); { uint8_t c = (uint8_t) t[n]; ASSUME (name_start (c) || (c >= '0' && c <= '9') || c == '-' || c == '.'); } n++;
  }
  else t[n++] = first;
  t[n] = 0; put (t);
}
static void sp (void) { if ((FOCUS & 1) && symx_choice ("space", 2)) put (" \t\n"); }
// a run of text or of an attribute value and what it stands for
static unsigned gen_text (char * t, bool attr, char quote)
{
  static const char * ent[] = { "&lt;", "&gt;", "&amp;", "&apos;", "&quot;" }; unsigned n = 0;
  switch (symx_choice ("text", attr ? ((FOCUS & 2) ? 5 : 1) : (FOCUS & 4) ? 8 : (FOCUS & 8) && nested ? 2 : 1))
  {
    case 0: break;
    case 1:
    {
      char c = 'c'; if (FOCUS & 6) c = (char) symx_input ("ch", 8);
      ASSUME (c && c != '<' && c != '&' && c != quote); putc1 (c);
      if (c == '\r') c = '\n';
      if (attr && (c == '\n' || c == '\t')) c = ' ';
      t[n++] = c; break;
    }
    case 2: { unsigned i = (unsigned) symx_choice ("entity", 5); putc1 ('x'); put (ent[i]); putc1 ('y'); t[n++] = 'x'; t[n++] = "<>&'\""[i]; t[n++] = 'y'; break; }
    case 3:
    {
      static const char * top[] = { "", "7", "d7", "e0", "10", "10f", "10ff", "0000" }; unsigned c = 0; const char * p = top[symx_choice ("code", 8)]; bool dec = !*p && symx_choice ("decimal", 2);
      put (dec ? "&#" : "&#x"); put (p); for (; *p; p++) c = c * 16 + (unsigned) (*p <= '9' ? *p - '0' : *p - 'a' + 10);
      for (int i = 0; i < 2; i++)
      {
        char h = (char) symx_input ("digit", 8); ASSUME ((h >= '0' && h <= '9') || (!dec && ((h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F'))));
        putc1 (h); c = c * (dec ? 10 : 16) + (unsigned) (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
      }
      putc1 (';'); ASSUME (c != 0);
      if (c < 0x80) t[n++] = (char) c; else if (c < 0x800) { t[n++] = (char) (0xc0 | (c >> 6)); t[n++] = (char) (0x80 | (c & 63)); } else if (c < 0x10000) { t[n++] = (char) (0xe0 | (c >> 12)); t[n++] = (char) (0x80 | ((c >> 6) & 63)); t[n++] = (char) (0x80 | (c & 63)); }
      else { t[n++] = (char) (0xf0 | (c >> 18)); t[n++] = (char) (0x80 | ((c >> 12) & 63)); t[n++] = (char) (0x80 | ((c >> 6) & 63)); t[n++] = (char) (0x80 | (c & 63)); }
      break;
    }
    case 4: put ("\r\n2\r3\n"); memcpy (t, attr ? " 2 3 " : "\n2\n3\n", 5); n = 5; break;
    case 5:
    {
      char c = (char) symx_input ("ch", 8), d = (char) symx_input ("ch", 8); ASSUME (c && d && c != '\r' && d != '\r' && d != ']'); ASSUME (!(c == ']' && d == '>'));
      static const char * pre[] = { "", "]", "]]" }; unsigned k = (unsigned) symx_choice ("brackets", 3); ASSUME (k == 0 || c != '>'); put ("<![CDATA["); put (pre[k]); putc1 (c); putc1 (d); put ("]]>");
      for (unsigned i = 0; i < k; i++) t[n++] = ']';
      t[n++] = c; t[n++] = d; break;
    }
    case 6: { char c = (char) symx_input ("ch", 8); ASSUME (c && c != '-' && c != '\r'); put ("u<!-- <x>&-"); putc1 (c); put ("-->v"); t[n++] = 'u'; t[n++] = 'v'; break; }
    default: { char c = (char) symx_input ("ch", 8); ASSUME (c && c != '?' && c != '\r' && c != '>'); put ("u<?pi <x>& ?"); putc1 (c); put ("?>v"); t[n++] = 'u'; t[n++] = 'v'; }
  }
  t[n] = 0; return n;
}
static iot_data_t * gen (unsigned depth)
{
  char nm[4], t[16], tag[4]; iot_data_t * r = iot_data_alloc_map (IOT_DATA_STRING), * attrs = iot_data_alloc_map (IOT_DATA_STRING), * kids = NULL;
  putc1 ('<'); gen_name (nm, 'e'); strcpy (tag, nm);
  iot_data_map_add (r, skey ("name"), skey (nm));
  unsigned na = (FOCUS & 2) ? 1 + (unsigned) symx_choice ("attributes", 2) : (FOCUS & 17) ? (unsigned) symx_choice ("attributes", 2) : 0;
  for (unsigned i = 0; i < na; i++)
  {
    put (i ? " " : "\n"); gen_name (nm, i ? '_' : 'p');
    { bool w = (FOCUS & 1) && symx_choice ("space", 2); put (w ? " \t=\n" : "="); }
    char q = symx_choice ("quote", 2) ? '"' : '\''; putc1 (q); if (i) { t[0] = 'w'; t[1] = 0; putc1 ('w'); } else gen_text (t, true, q); putc1 (q);
    iot_data_map_add (attrs, skey (nm), skey (t));
  }
  sp (); iot_data_map_add (r, skey ("attributes"), attrs);
  if (symx_choice ("empty", 2)) { put ("/>"); return r; }
  putc1 ('>');
  unsigned nc = depth ? (unsigned) symx_choice ("children", 3) : 0;
  if (nc) kids = iot_data_alloc_vector (nc);
  for (unsigned i = 0; i < nc; i++) { put ((FOCUS & 8) ? "z" : ""); if (FOCUS & 4) gen_text (t, false, 0); iot_data_vector_add (kids, i, gen (depth - 1)); }
  if (nc) iot_data_map_add (r, skey ("children"), kids);
  nested = depth > 0;
  if (gen_text (t, false, 0)) iot_data_map_add (r, skey ("content"), skey (t));
  put ("</"); put (tag); sp (); putc1 ('>');
  return r;
}
#endif
int main (void)
{
  LIVE0;
#if MODE == 0     // any text
  char * t = malloc (sizeof (PREFIX) + N + 1); strcpy (t, PREFIX); symx_bytes ("text", t + strlen (PREFIX), N); t[strlen (PREFIX) + N] = 0;
  (void) put; (void) putc1; (void) dn;
  iot_data_t * d = iot_data_from_xml (t);
  if (d)
  {
    symx_cover ("parsed");
    CHECK (iot_data_type (d) == IOT_DATA_MAP && iot_data_string_map_get_string (d, "name") && strlen (iot_data_string_map_get_string (d, "name")) > 0, "an element has a name");
    CHECK (iot_data_type (iot_data_string_map_get (d, "attributes")) == IOT_DATA_MAP, "an element has attributes");
  }
  iot_data_free (d); free (t);
#elif MODE == 1   // documents
  switch (symx_choice ("prolog", (FOCUS & 16) ? 5 : 1))
  {
    case 0: break;
    case 1: put ("<?xml version=\"1.0\"?>"); break;
    case 2: put ("<?xml version='1.1' encoding='UTF-8' standalone=\"yes\" ?>\r\n"); break;
    case 3: { char c = (char) symx_input ("ch", 8); ASSUME (c && c != '-' && c != '\r'); put ("\xef\xbb\xbf \n<!--"); putc1 (c); put ("--><?a b?>"); break; }
    default: put ("<!DOCTYPE e [ <!ELEMENT e ANY> ]>");
  }
  unsigned start = dn;
  iot_data_t * want = gen (DEPTH);
  unsigned end = dn;
  switch (symx_choice ("after", (FOCUS & 16) ? 3 : 1)) { case 1: put (" \r\n\t"); break; case 2: put ("<!-- > --><?a?>"); break; default: break; }
  unsigned act = (unsigned) symx_choice ("as", (FOCUS & 16) ? 3 : 1);
  if (act == 1) { unsigned c = (unsigned) symx_choice ("cut", 64); if (c >= end) symx_prune (); doc[c] = 0; symx_cover ("cut"); }
  if (act == 2) { char c = (char) symx_input ("junk", 8); ASSUME (c && c != ' ' && c != '\t' && c != '\r' && c != '\n'); putc1 (c); if (symx_choice ("more", 2)) put (c == '<' ? "e/>" : "x"); }
  (void) start;
  iot_data_t * d = iot_data_from_xml (doc);
  if (act == 0) CHECK (iot_data_equal (d, want) && iot_data_equal (want, d), "a document yields the elements, attributes and text it holds");
  else CHECK (d == NULL, "text that is not a document yields nothing");
  iot_data_free (d); iot_data_free (want);
#elif MODE == 2   // long text, attributes and names
  static const unsigned len[] = { 1, 254, 255, 256, 257, 508, 509, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 4090 };
  unsigned n = len[symx_choice ("len", LENS)], k = (unsigned) symx_choice ("where", 3);
  char * t = malloc (3 * n + 64), * p = t, * v = malloc (n + 1); char c = (char) symx_input ("ch", 8); ASSUME (c >= 'a' && c <= 'z'); memset (v, 'v', n); v[n - 1] = c; v[n] = 0;
  (void) put; (void) putc1; (void) dn;
  iot_data_t * want = iot_data_alloc_map (IOT_DATA_STRING), * attrs = iot_data_alloc_map (IOT_DATA_STRING);
  switch (k)
  {
    case 0: strcpy (p, "<a>"); strcat (p, v); strcat (p, "</a>"); iot_data_string_map_add (want, "content", iot_data_alloc_string (v, IOT_DATA_COPY)); break;
    case 1: strcpy (p, "<a b='"); strcat (p, v); strcat (p, "'>xyz</a>"); iot_data_string_map_add (want, "content", STR ("xyz")); iot_data_map_add (attrs, STR ("b"), iot_data_alloc_string (v, IOT_DATA_COPY)); break;
    default: strcpy (p, "<"); strcat (p, v); strcat (p, "/>"); break;
  }
  iot_data_string_map_add (want, "attributes", attrs); iot_data_string_map_add (want, "name", iot_data_alloc_string (k == 2 ? v : "a", IOT_DATA_COPY));
  iot_data_t * d = iot_data_from_xml (t);
  CHECK (iot_data_equal (d, want), "long text is kept");
  iot_data_free (d); iot_data_free (want); free (t); free (v);
#elif MODE == 4   // every reference of up to N characters after a start: its character, or nothing
  static const char * start[] = { "", "#", "#x", "#xd", "#xff", "#x10", "#11141", "am", "quo", "ap" }; char b[16]; unsigned n; strcpy (b, start[symx_choice ("start", 10)]); n = (unsigned) strlen (b);
  unsigned k = (unsigned) symx_choice ("more", N + 1); bool attr = symx_choice ("attribute", 2);
  for (unsigned i = 0; i < k; i++) { b[n] = (char) symx_input ("ch", 8); ASSUME (b[n] && b[n] != ';'); n++; } b[n] = 0;
  put (attr ? "<e a='&" : "<e>&"); put (b); put (attr ? ";'/>" : ";</e>");
  unsigned long c = 0; bool num = n > 1 && b[0] == '#', hex = num && b[1] == 'x'; if (hex && n < 3) num = false;
  for (unsigned i = hex ? 2 : 1; i < n && num; i++)
  {
    unsigned char h = (unsigned char) b[i];
    if (h >= '0' && h <= '9') c = c * (hex ? 16 : 10) + h - '0'; else if (hex && ((h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F'))) c = c * 16 + (h | 32u) - 'a' + 10; else num = false;
  }
  if (!num) c = !strcmp (b, "lt") ? '<' : !strcmp (b, "gt") ? '>' : !strcmp (b, "amp") ? '&' : !strcmp (b, "apos") ? '\'' : !strcmp (b, "quot") ? '"' : 0;
  bool ok = c && c <= 0x10ffff && (c < 0xd800 || c > 0xdfff) && c != 0xfffe && c != 0xffff;
  iot_data_t * d = iot_data_from_xml (doc);
  CHECK ((d != NULL) == ok, "a reference is accepted exactly when it names a character");
  if (d)
  {
    char t[5]; unsigned m = 0; symx_cover ("reference");
    if (c < 0x80) t[m++] = (char) c; else if (c < 0x800) { t[m++] = (char) (0xc0 | (c >> 6)); t[m++] = (char) (0x80 | (c & 63)); } else if (c < 0x10000) { t[m++] = (char) (0xe0 | (c >> 12)); t[m++] = (char) (0x80 | ((c >> 6) & 63)); t[m++] = (char) (0x80 | (c & 63)); }
    else { t[m++] = (char) (0xf0 | (c >> 18)); t[m++] = (char) (0x80 | ((c >> 12) & 63)); t[m++] = (char) (0x80 | ((c >> 6) & 63)); t[m++] = (char) (0x80 | (c & 63)); }
    t[m] = 0; const char * g = attr ? iot_data_string_map_get_string (iot_data_string_map_get (d, "attributes"), "a") : iot_data_string_map_get_string (d, "content");
    CHECK (g && strlen (g) == m, "it yields one character"); for (unsigned i = 0; i < m; i++) CHECK (g[i] == t[i], "the one it names");
  }
  iot_data_free (d);
#elif MODE == 5   // what may and what may not precede the element
  static const char * good[] = { "<?xml version='1.0'?>", "<?xml\tversion = \"1.12\" ?>", "<?xml version='1.0' encoding='a'?>", "<?xml version='1.0'\nencoding = \"A1._-z\" ?>", "<?xml version='1.0' standalone='no'?>", "<?xml version='1.0' standalone = \"yes\" ?>", "<?xml version='1.0' encoding='U' standalone='no' ?>",
    "<?x?>", "<?xm?>", "<?xmlx?>", "<?xmk b?>", "<?xa ??>", "<?y?>", "<?xm a?>", "<?x a?>", "<!----><?a?>", "<!--a-b--> ", "<!DOCTYPE e>", "<!DOCTYPE e SYSTEM \">]\">", "<!DOCTYPE e [ <!ENTITY a \"]>'\"> <?p ]> \" ?> <!-- ]> ' --> ]>", "<!DOCTYPE e><!--a--><?b c?>", "<?xml version='1.0'?><!DOCTYPE e ''><?x?>", "\r\n \t", "<?xml version='1.0'?> <?x?>" };
  static const char * bad[] = { "<?xml?>", "<?xml ?>", "<?xml version='2.0'?>", "<?xml version='1.'?>", "<?xml version='1.0?>", "<?xml version='1.0\"?>", "<?xml version='1.0' standalone='maybe'?>", "<?xml version='1.0'standalone='no'?>", "<?xml version='1.0' standalone='yes\"?>", "<?xml version='1.0' encoding='1'?>", "<?xml version='1.0' encoding=''?>", "<!-- -- -->", "<!->", "<!-a-->",
    "<? a?>", "<?1?>", "x", "<![CDATA[]]>", "&lt;", "<?a", "<!DOCTYPE e [", "<?Xml a?>", "<!DOCTIPE e>", "<?xml version='1.0' standalone='yes' encoding='a'?>", "<?xml encoding='a'?>", "<?xml version='1.0'", "<!--a", "</e>", "<>", "<e", "\xef\xbb", "<?a?b" };
  static const char * tail[] = { "", " ", "<?p?>", "<!--c-->", "<?p q?>\n<!---->", "</e>", "<e/>", "<!DOCTYPE e>", "t", "<?xml version='1.0'?>", "<!--", "<?p" };
  unsigned g = (unsigned) symx_choice ("good", 25); bool ok = g < 24; unsigned t = 0;
  if (ok) { put (good[g]); put ("<e/>"); t = (unsigned) symx_choice ("tail", 12); put (tail[t]); ok = t < 5; } else { put (bad[symx_choice ("bad", 32)]); put ("<e/>"); }
  iot_data_t * d = iot_data_from_xml (doc);
  CHECK ((d != NULL) == ok, "accepted exactly when well formed"); if (d) CHECK (!strcmp (iot_data_string_map_get_string (d, "name"), "e") && iot_data_map_size (d) == 2, "with the element and nothing else");
  iot_data_free (d);
#else             // names that fill the parser's stack: either kept or refused
  unsigned n = 4080 + (unsigned) symx_choice ("len", 24), k = (unsigned) symx_choice ("how", 3);
  char * t = malloc (2 * n + 64), * v = malloc (n + 1); memset (v, 'v', n); v[n] = 0;
  (void) put; (void) putc1; (void) dn;
  strcpy (t, k == 0 ? "<" : k == 1 ? "<a " : "<a><"); strcat (t, v); strcat (t, k == 0 ? "/>" : k == 1 ? "='w'/>" : "/></a>");
  iot_data_t * d = iot_data_from_xml (t);
  if (d)
  {
    symx_cover ("kept");
    const iot_data_t * e = k == 2 ? iot_data_vector_get (iot_data_string_map_get (d, "children"), 0) : d;
    if (k == 1) CHECK (strcmp (iot_data_string_map_get_string (iot_data_string_map_get (d, "attributes"), v), "w") == 0, "name of an attribute");
    else CHECK (strcmp (iot_data_string_map_get_string (e, "name"), v) == 0, "name of an element");
  }
  else symx_cover ("refused");
  iot_data_free (d); free (t); free (v);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
