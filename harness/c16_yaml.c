// YAML events to data; the external parser is replaced by one that produces any event stream within the grammar of events
#include "h.h"
#include <stdio.h>
#include <yaml.h>
#ifndef DEPTH
#define DEPTH 1
#endif
#ifndef SLOTS
#define SLOTS 3
#endif
static const char * input_text = "text";
static int parsers, live_events; static bool failed, bad, ended, doc_done;
static int phase;                       // 0 start, 1 before document, 2 in document, 3 after root, 4 after document, 5 ended
static struct { iot_data_t * c; iot_data_t * key; uint32_t n; bool map; } stk[4]; static unsigned sp_, slots, scalars;
static iot_data_t * want; static unsigned docs;
static const char * gen_plain (char * t, iot_data_t ** v);
int sx_yaml_parser_initialize (yaml_parser_t * p) { memset (p, 0, sizeof (*p)); parsers++; return 1; }
void sx_yaml_parser_set_input_string (yaml_parser_t * p, const unsigned char * s, size_t n) { (void) p; CHECK (s == (const unsigned char *) input_text && n == strlen (input_text), "the text given is parsed"); }
void sx_yaml_parser_delete (yaml_parser_t * p) { (void) p; CHECK (parsers == 1, "parser deleted once"); parsers--; }
void sx_yaml_event_delete (yaml_event_t * e)
{
  CHECK (e->type >= YAML_NO_EVENT && e->type <= YAML_MAPPING_END_EVENT, "a valid event is deleted");
  if (e->type == YAML_NO_EVENT) return;
  live_events--;
  if (e->type == YAML_SCALAR_EVENT) free (e->data.scalar.value);
  if (e->type == YAML_ALIAS_EVENT) free (e->data.alias.anchor);
  memset (e, 0, sizeof (*e));
}
static void value (iot_data_t * v)      // a complete value of the first document
{
  if (doc_done) { iot_data_free (v); return; }
  if (!sp_) { want = v; return; }
  if (stk[sp_ - 1].map) { if (stk[sp_ - 1].key) iot_data_map_add (stk[sp_ - 1].c, stk[sp_ - 1].key, v); else { iot_data_free (v); bad = true; } stk[sp_ - 1].key = NULL; }
  else { iot_data_vector_resize (stk[sp_ - 1].c, stk[sp_ - 1].n + 1); iot_data_vector_add (stk[sp_ - 1].c, stk[sp_ - 1].n++, v); }
}
static void drop (void) { while (sp_) { sp_--; iot_data_free (stk[sp_].c); iot_data_free (stk[sp_].key); } iot_data_free (want); want = NULL; }
int sx_yaml_parser_parse (yaml_parser_t * p, yaml_event_t * e)
{
  CHECK (parsers == 1, "parser in use"); CHECK (!failed && phase < 5, "nothing is parsed after a failure or the end"); CHECK (live_events == 0 || sp_ > 0, "events are deleted");
  memset (e, 0, sizeof (*e));
  bool at_node = phase == 2;
  // what comes next
  enum { FAIL, SCALAR, MAP, SEQ, ALIAS, END, NEXT } k;
  if (at_node)
  {
    enum { X = 6 }; unsigned o[X], n = 0;
    if (sp_ && slots >= SLOTS && !(stk[sp_ - 1].map && stk[sp_ - 1].key)) o[n++] = END;
    else if (slots >= SLOTS) o[n++] = SCALAR;
    else
    {
      o[n++] = SCALAR; if (sp_ < DEPTH) { o[n++] = MAP; o[n++] = SEQ; }
      if (sp_ && !(stk[sp_ - 1].map && stk[sp_ - 1].key)) o[n++] = END;
      if (ODD) { o[n++] = FAIL; o[n++] = ALIAS; }
    }
    k = o[n > 1 ? symx_choice ("event", n) : 0];
  }
  else k = ODD && symx_choice ("fails", 2) ? FAIL : NEXT;
  if (k == FAIL) { failed = true; p->problem = "problem"; p->problem_mark.line = 7; return 0; }
  live_events++;
  e->start_mark.line = 5; p->mark.line = 6;
  switch (k)
  {
    case NEXT:
      switch (phase)
      {
        case 0: e->type = YAML_STREAM_START_EVENT; phase = 1; break;
        case 1: if (ODD && symx_choice ("no document", 2)) { e->type = YAML_STREAM_END_EVENT; phase = 5; ended = true; } else { e->type = YAML_DOCUMENT_START_EVENT; phase = 2; slots = 0; } break;
        case 3: e->type = YAML_DOCUMENT_END_EVENT; phase = 4; doc_done = true; break;
        default: if (ODD && docs++ == 0 && symx_choice ("another document", 2)) { e->type = YAML_DOCUMENT_START_EVENT; phase = 2; slots = SLOTS; } else { e->type = YAML_STREAM_END_EVENT; phase = 5; ended = true; } break;
      }
      break;
    case SCALAR:
    {
      char t[32]; iot_data_t * v = NULL; bool key = sp_ && stk[sp_ - 1].map && !stk[sp_ - 1].key; bool quoted = symx_choice ("quoted", 2);
      slots++; scalars++; e->type = YAML_SCALAR_EVENT; e->data.scalar.style = YAML_PLAIN_SCALAR_STYLE;
      if (quoted) { unsigned k = MODE ? (unsigned) symx_choice ("style", 4) : scalars & 3; e->data.scalar.style = k == 0 ? YAML_DOUBLE_QUOTED_SCALAR_STYLE : k == 1 ? YAML_SINGLE_QUOTED_SCALAR_STYLE : k == 2 ? YAML_LITERAL_SCALAR_STYLE : YAML_FOLDED_SCALAR_STYLE; }
      if (key) { t[0] = "kt1"[symx_choice ("key", 3)]; t[1] = 0; if (t[0] == 't') strcpy (t, "true"); }
      else gen_plain (t, quoted ? NULL : &v);
      e->data.scalar.value = malloc (strlen (t) + 1); strcpy ((char*) e->data.scalar.value, t); e->data.scalar.length = strlen (t);
      if (key) stk[sp_ - 1].key = STR (t); else value (v ? v : STR (t));
      if (!sp_) phase = 3;
      break;
    }
    case MAP: case SEQ:
      if (sp_ && stk[sp_ - 1].map && !stk[sp_ - 1].key) bad = true;
      slots++; e->type = k == MAP ? YAML_MAPPING_START_EVENT : YAML_SEQUENCE_START_EVENT;
      stk[sp_].c = k == MAP ? iot_data_alloc_map (IOT_DATA_STRING) : iot_data_alloc_vector (0); stk[sp_].key = NULL; stk[sp_].n = 0; stk[sp_++].map = k == MAP;
      break;
    case END:
    {
      iot_data_t * c = stk[--sp_].c; e->type = stk[sp_].map ? YAML_MAPPING_END_EVENT : YAML_SEQUENCE_END_EVENT;
      value (c); if (!sp_) phase = 3;
      break;
    }
    default: // alias
      bad = bad || !doc_done; slots++; e->type = YAML_ALIAS_EVENT; e->data.alias.anchor = malloc (2); strcpy ((char*) e->data.alias.anchor, "a");
      if (sp_) { if (stk[sp_ - 1].map && stk[sp_ - 1].key) { iot_data_free (stk[sp_ - 1].key); stk[sp_ - 1].key = NULL; } else if (stk[sp_ - 1].map) stk[sp_ - 1].key = STR ("alias"); } else phase = 3;
      break;
  }
  return 1;
}
#if MODE == 0
static const char * gen_plain (char * t, iot_data_t ** v)
{
  static const char * w[] = { "true", "7", "", "null", "false", "-8", "x" }; unsigned i = (unsigned) symx_choice ("scalar", scalars > 2 ? 2 : 7); strcpy (t, w[i]);
  if (v) switch (i) { case 0: case 4: *v = iot_data_alloc_bool (i == 0); break; case 3: *v = iot_data_alloc_null (); break; case 1: *v = iot_data_alloc_i64 (7); break; case 5: *v = iot_data_alloc_i64 (-8); break; default: break; }
  return t;
}
#else
static bool dg (char c) { return c >= '0' && c <= '9'; }
static const char * gen_plain (char * t, iot_data_t ** v)
{
  static const char * big[] = { "", "92233720368547758", "184467440737095516", "0x7fffffffffffff", "0", "-0x80000000000000", "0xffffffffffffff" };
  unsigned n = 0, b = (unsigned) symx_choice ("kind", 9); bool neg = false, over = false; uint64_t x = 0;
  if (b < 7)     // integers in decimal, hexadecimal and octal
  {
    unsigned base = b == 3 || b >= 5 ? 16 : b == 4 ? 8 : 10, k = 1 + (unsigned) symx_choice ("digits", b == 4 ? 3 : 2);
    if (b < 4 && symx_choice ("negative", 2)) { t[n++] = '-'; neg = true; }
    if (b == 5) neg = true;
    const char * p = big[b]; strcpy (t + n, p); n += (unsigned) strlen (p); if (*p == '-') p++; if (base == 16) p += 2;
    for (; *p; p++) x = x * base + (uint64_t) (dg (*p) ? *p - '0' : *p - 'a' + 10);
    for (unsigned i = 0; i < k; i++)
    {
      char d = (char) symx_input ("digit", 8); ASSUME (base == 16 ? dg (d) || (d >= 'a' && d <= 'f') || (d >= 'A' && d <= 'F') : base == 8 ? d >= '0' && d <= '7' : dg (d));
      if (base == 10 && i == 0 && x == 0 && k > 1) ASSUME (d != '0');
      t[n++] = d; uint64_t a = (uint64_t) (dg (d) ? d - '0' : (d | 32) - 'a' + 10);
      if (x > (UINT64_MAX - a) / base) over = true; x = x * base + a;
    }
    t[n] = 0;
    ASSUME (!over && (!neg || x <= 0x8000000000000000u));
    if (v) *v = neg ? iot_data_alloc_i64 ((int64_t) (0 - x)) : x <= INT64_MAX ? iot_data_alloc_i64 ((int64_t) x) : iot_data_alloc_ui64 (x);
  }
  else if (b == 7) // floating point, also of integers out of range
  {
    static const char * f[] = { "1.5", "-0.25e1", "18446744073709551616", "-9223372036854775809", "1E3", "+.5", "-0.0" }; static const double d[] = { 1.5, -2.5, 18446744073709551616.0, -9223372036854775808.0, 1000, 0.5, -0.0 };
    unsigned i = (unsigned) symx_choice ("float", 7); strcpy (t, f[i]); if (v) *v = iot_data_alloc_f64 (d[i]);
  }
  else             // text: words and what only begins like a number
  {
    static const char * w[] = { "", "true", "nul", "False", "12:30", "1.2.3", "0x", "-", "--1", "5 kg", "1e", "~" }; unsigned i = (unsigned) symx_choice ("word", 13);
    if (i < 12) strcpy (t, w[i]); else { t[0] = 't'; t[1] = (char) symx_input ("ch", 8); t[2] = 'u'; t[3] = (char) symx_input ("ch", 8); t[4] = 0; }
    if (v && strcmp (t, "true") == 0) *v = iot_data_alloc_bool (true);
  }
  return t;
}
#endif
int main (void)
{
  LIVE0;
  iot_data_t * ex = NULL;
  iot_data_t * d = iot_data_from_yaml (input_text, &ex);
  CHECK (parsers == 0, "parser deleted"); CHECK (live_events == 0, "events deleted");
  if (failed || bad) { CHECK (d == NULL, "no value when parsing fails"); CHECK (ex && iot_data_type (ex) == IOT_DATA_STRING, "failure gives an exception"); symx_cover ("exception"); }
  else { CHECK (ex == NULL, "no exception otherwise"); CHECK (ended, "the whole text is parsed"); CHECK (want ? iot_data_equal (d, want) && iot_data_equal (want, d) : d == NULL, "value of the first document"); if (d) symx_cover ("value"); }
  iot_data_free (d); iot_data_free (ex); drop ();
  symx_cover ("end");
  LIVE_END ("no leak");
}
