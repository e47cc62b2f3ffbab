// C06: a list behaves as a double ended sequence under every sequence of operations; its iterator visits it in order
#include "h.h"
#ifndef N
#define N 4
#endif
#define CAP 12
static uint8_t m[CAP]; static unsigned n;   // model, m[0] is the tail
static unsigned freed;
static bool is_val (const iot_data_t * d, const void * arg) { return iot_data_ui8 (d) == *(const uint8_t*) arg; }
static void del (unsigned i) { for (; i + 1 < n; i++) m[i] = m[i + 1]; n--; }
static void ins (unsigned i, uint8_t v) { for (unsigned k = n; k > i; k--) m[k] = m[k - 1]; m[i] = v; n++; }
static void audit (iot_data_t * l)
{
  CHECK (iot_data_list_length (l) == n && iot_data_length (l) == n, "length");
  iot_data_list_iter_t it; iot_data_list_iter (l, &it);
  for (unsigned i = 0; i < n; i++)
  {
    CHECK (iot_data_list_iter_has_next (&it), "has_next before an element");
    CHECK (iot_data_list_iter_next (&it) && iot_data_list_iter_value (&it) && iot_data_ui8 (iot_data_list_iter_value (&it)) == m[i], "iteration visits tail to head");
  }
  if (n) CHECK (!iot_data_list_iter_has_next (&it), "no next at the head");
  CHECK (!iot_data_list_iter_next (&it) && iot_data_list_iter_value (&it) == NULL, "iteration ends at the head");
  CHECK (iot_data_list_iter_has_next (&it) == (n > 0), "iterator can be restarted exactly when not empty");
  for (unsigned i = n; i-- > 0;)
  {
    CHECK (iot_data_list_iter_prev (&it) && iot_data_ui8 (iot_data_list_iter_value (&it)) == m[i], "reverse iteration visits head to tail");
    CHECK (iot_data_list_iter_has_next (&it) == (i + 1 < n), "has_next while moving backwards");
  }
  CHECK (!iot_data_list_iter_prev (&it), "reverse iteration ends at the tail");
}
static void pop (iot_data_t * d, unsigned i)
{
  CHECK ((d != NULL) == (n > 0), "pop returns an element exactly when not empty");
  if (d) { CHECK (iot_data_ui8 (d) == m[i], "popped element"); del (i); CHECK (iot_data_ref_count (d) == 1, "popped element belongs to the caller"); iot_data_free (d); }
}
int main (void)
{
  LIVE0;
#ifdef STATIC
  iot_data_list_static_t st; iot_data_t * l = iot_data_alloc_const_list (&st);
#else
  iot_data_t * l = symx_choice ("typed", 2) ? iot_data_alloc_typed_list (IOT_DATA_UINT8) : iot_data_alloc_list ();
#endif
#ifdef PRE
  for (unsigned i = 0; i < PRE; i++) { uint8_t v = IN_U8 ("p"); if (i & 1) { iot_data_list_tail_push (l, iot_data_alloc_ui8 (v)); ins (0, v); } else { iot_data_list_head_push (l, iot_data_alloc_ui8 (v)); ins (n, v); } }
#endif
  for (int i = 0; i < N; i++)
  {
    uint8_t v = IN_U8 ("v");
    switch (symx_choice ("op", 9))
    {
      case 0: iot_data_list_head_push (l, iot_data_alloc_ui8 (v)); ins (n, v); break;
      case 1: iot_data_list_tail_push (l, iot_data_alloc_ui8 (v)); ins (0, v); break;
      case 2: pop (iot_data_list_head_pop (l), n - 1); break;
      case 3: pop (iot_data_list_tail_pop (l), 0); break;
      case 4:   // remove by predicate: first match from the tail
      {
        unsigned k = 0; while (k < n && m[k] != v) k++;
        const iot_data_t * f = iot_data_list_find (l, is_val, &v);
        CHECK ((f != NULL) == (k < n) && (!f || iot_data_ui8 (f) == v), "find");
        CHECK (iot_data_list_remove (l, is_val, &v) == (k < n), "remove reports a match");
        if (k < n) { del (k); symx_cover ("removed"); }
        break;
      }
      case 5:   // iterator removal at a chosen position, iteration continues
      {
        unsigned k = (unsigned) symx_choice ("at", n + 1); iot_data_list_iter_t it; iot_data_list_iter (l, &it);
        if (k == n) { CHECK (!iot_data_list_iter_remove (&it), "nothing to remove before the start"); break; }
        for (unsigned j = 0; j <= k; j++) iot_data_list_iter_next (&it);
        CHECK (iot_data_list_iter_remove (&it), "iterator remove"); del (k);
        for (unsigned j = k; j < n; j++) CHECK (iot_data_list_iter_next (&it) && iot_data_ui8 (iot_data_list_iter_value (&it)) == m[j], "iteration continues after the removed element");
        if (k < n || k > 0) CHECK (!iot_data_list_iter_next (&it), "and ends");
        break;
      }
      case 6:   // replace through the iterator
      {
        unsigned k = (unsigned) symx_choice ("at", n + 1); iot_data_list_iter_t it; iot_data_list_iter (l, &it);
        for (unsigned j = 0; j <= k && k < n; j++) iot_data_list_iter_next (&it);
        iot_data_t * nv = iot_data_alloc_ui8 (v), * o = iot_data_list_iter_replace (&it, nv);
        if (k == n) { CHECK (o == NULL, "nothing to replace before the start"); iot_data_free (nv); }
        else { CHECK (o && iot_data_ui8 (o) == m[k] && iot_data_list_iter_value (&it) == nv, "replace returns the old value"); iot_data_free (o); m[k] = v; }
        break;
      }
      case 7: iot_data_list_empty (l); n = 0; break;
      default: audit (l); break;
    }
    CHECK (iot_data_list_length (l) == n, "length after each operation");
  }
  audit (l);
  iot_data_iter_t gi; iot_data_iter (l, &gi);
  for (unsigned i = 0; i < n; i++) { CHECK (iot_data_iter_has_next (&gi) && iot_data_iter_next (&gi) && iot_data_ui8 (iot_data_iter_value (&gi)) == m[i], "generic iterator"); symx_log (iot_data_ui8 (iot_data_iter_value (&gi))); }
  CHECK (!iot_data_iter_next (&gi), "generic iterator ends");
#ifdef STATIC
  iot_data_list_empty (l);
#endif
  iot_data_free (l);
  symx_cover ("end");
  LIVE_END ("no leak");
}
