// C25: logging
#include "h.h"
#include "iot/logger.h"
#include "iot/container.h"
#include <stdarg.h>
#include <pthread.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <time.h>
static char o_, e_, f_; FILE * const sxc_out = (FILE*) &o_, * const sxc_err = (FILE*) &e_; static FILE * const file = (FILE*) &f_;
static const char * lv[] = { "", "ERROR", "WARN", "Info", "Debug", "Trace" };
static uint64_t now_us = 1000;
int sx_clock_gettime (clockid_t c, struct timespec * t) { (void) c; t->tv_sec = (time_t) (now_us / 1000000); t->tv_nsec = (long) (now_us % 1000000) * 1000; return 0; }
int sx_prctl (int op, ...) { va_list a; va_start (a, op); char * n = va_arg (a, char*); va_end (a); strcpy (n, "thr"); return 0; }
// output
static char out[2600]; static size_t outn; static FILE * outf; static int writes; static int opened, closed; static const char * opath;
static void emit (FILE * f, const char * s, size_t n) { outf = f; writes++; CHECK (outn + n < sizeof (out), "bounded output"); for (size_t i = 0; i < n; i++) out[outn++] = s[i]; out[outn] = 0; }
int sx_fprintf (FILE * f, const char * fmt, ...)
{
  char b[2100]; va_list a; va_start (a, fmt); int n = vsnprintf (b, sizeof (b), fmt, a); va_end (a);
#if MODE == 3
  for (int i = 0; i < n; i++) { emit (f, b + i, 1); symx_yield (); }
#else
  emit (f, b, (size_t) n);
#endif
  return n;
}
int sx_fputs (const char * s, FILE * f) { return sx_fprintf (f, "%s", s); }
static bool fopen_fails;
FILE * sx_fopen (const char * p, const char * m) { CHECK (m[0] == 'a', "log files are appended to"); opath = p; if (fopen_fails) return NULL; opened++; return file; }
int sx_fclose (FILE * f) { CHECK (f == file, "the log file is closed"); closed++; return 0; }
// sockets
static int sock_result, socks, sclosed, bcast; static struct sockaddr_in dest; static const char * host_seen; static char hostbuf[40];
int sx_socket (int d, int t, int p) { (void) d; (void) p; CHECK (t == SOCK_DGRAM, "datagram"); if (sock_result >= 0) socks++; return sock_result; }
int sx_setsockopt (int s, int l, int o, const void * v, socklen_t n) { (void) s; (void) l; (void) v; (void) n; bcast += o == SO_BROADCAST; return 0; }
ssize_t sx_sendto (int s, const void * b, size_t n, int fl, const struct sockaddr * a, socklen_t l) { (void) fl; (void) l; CHECK (s == sock_result, "sent on its socket"); memcpy (&dest, a, sizeof (dest)); emit (NULL, b, n); return (ssize_t) n; }
int sx_close (int s) { if (s >= 0) sclosed++; return 0; }
int sx_inet_aton (const char * h, struct in_addr * a) { CHECK (strlen (h) < sizeof (hostbuf), "host"); strcpy (hostbuf, h); host_seen = hostbuf; a->s_addr = 0x01020304; return 1; }
uint16_t sx_htons (uint16_t p) { return (uint16_t) (p << 8 | p >> 8); }
uint32_t sx_htonl (uint32_t p) { return __builtin_bswap32 (p); }
// container
static iot_logger_t * other; static const char * asked;
iot_component_t * iot_container_find_component (iot_container_t * c, const char * n) { (void) c; asked = n; return n && !strcmp (n, "other") ? (iot_component_t*) other : NULL; }
const iot_container_config_t * iot_container_get_config (void) { return NULL; }
// custom logger
#define NL 3
#ifndef ONE
#define ONE 0
#endif
static int ctx[NL], calls[NL], freed[NL]; static uint64_t seen_ts[NL]; static const char * want_msg; static iot_logger_t * L[NL]; static iot_loglevel_t want_level;
static void impl (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * msg, const void * c)
{
  int i = (int) ((const int*) c - ctx); CHECK (i >= 0 && i < NL && l == L[i], "called for its logger"); calls[i]++; seen_ts[i] = ts;
  CHECK (level == want_level, "level of the message"); CHECK (strcmp (msg, want_msg) == 0, "message as formatted");
}
static void ctxfree (void * c) { freed[(int*) c - ctx]++; }
static void expect (char * b, size_t n, const char * name, unsigned l, const char * msg)      // the line, at most n - 1 characters of it
{
  char t[2200]; size_t k = 0; char num[24]; snprintf (num, sizeof (num), "%llu", (unsigned long long) now_us);
  const char * part[] = { "[thr:", num, ":", name, ":", lv[l], "] ", msg, "\n" };
  for (int i = 0; i < 9; i++) for (const char * p = part[i]; *p; p++) t[k++] = *p;
  if (k > n - 1) k = n - 1;
  memcpy (b, t, k); b[k] = 0;
}
#if MODE == 3
static void * worker (void * a) { iot_log_error (L[0] ? L[0] : iot_logger_default (), "%s", (const char*) a); return NULL; }
#endif
int main (void)
{
  LIVE0;
#if MODE == 0      // levels, start, stop, chains
  unsigned level[NL], save[NL]; bool run[NL]; int next[NL];
  for (int i = 0; i < NL; i++)
  {
    save[i] = i ? 3 : (unsigned) symx_choice ("level", 6); run[i] = i || symx_choice ("start", 2); next[i] = i == 1 ? 0 : -1;
    char n[2] = { (char) ('a' + i), 0 };
    L[i] = iot_logger_alloc_custom (n, save[i], run[i], i == 1 ? L[0] : NULL, impl, &ctx[i], ctxfree); level[i] = run[i] ? save[i] : 0;
  }
  for (int s = 0; s <= N; s++)
  {
    int i = ONE ? 0 : (int) symx_choice ("logger", NL);
    switch (s < N ? symx_choice ("op", ONE ? 3 : 5) : 4)
    {
      case 0: if (!run[i]) symx_prune (); level[i] = (unsigned) symx_choice ("new level", 2) * 5; iot_logger_set_level (L[i], level[i]); break;
      case 1: if (run[i]) symx_prune (); iot_logger_start (L[i]); run[i] = true; level[i] = save[i]; CHECK (L[i]->component.state == IOT_COMPONENT_RUNNING, "running"); break;
      case 2: iot_logger_stop (L[i]); if (run[i]) save[i] = level[i]; run[i] = false; level[i] = 0; CHECK (L[i]->component.state == IOT_COMPONENT_STOPPED, "stopped"); break;
      case 3:
      {
        int n = (int) symx_choice ("next", NL + 1) - 1, k = n; while (k >= 0 && k != i) k = next[k];
        if (k == i) symx_prune ();      // no cycles
        iot_logger_set_next (L[i], n < 0 ? NULL : L[n]); next[i] = n; break;
      }
      default:
      {
        unsigned l = 1 + (unsigned) symx_choice ("message level", s < N ? 2 : 5) * (s < N ? 3 : 1); char t[24]; int v = (int) l * 77 - 128; snprintf (t, sizeof (t), "m %d x", v); want_msg = t; want_level = l;
        memset (calls, 0, sizeof (calls)); now_us += 5;
        switch (l) { case 1: iot_log_error (L[i], "m %d %s", v, "x"); break; case 2: iot_log_warn (L[i], "m %d %s", v, "x"); break; case 3: iot_log_info (L[i], "m %d %s", v, "x"); break; case 4: iot_log_debug (L[i], "m %d %s", v, "x"); break; default: iot_log_trace (L[i], "m %d %s", v, "x"); break; }
        int want[NL] = { 0 }; if (level[i] >= l) for (int k = i; k >= 0; k = next[k]) want[k] = level[k] >= l;
        for (int k = 0; k < NL; k++) { CHECK (calls[k] == want[k], "delivered exactly once to each logger of the chain that admits the level, and to no other"); if (calls[k]) CHECK (seen_ts[k] == now_us, "time of the message"); }
      }
    }
    for (int k = 0; k < NL; k++) CHECK (L[k]->level == level[k], "level");
  }
  unsigned order = (unsigned) symx_choice ("order", 2);
  for (int i = 0; i < NL; i++) iot_logger_free (L[order ? NL - 1 - i : i]);
  for (int i = 0; i < NL; i++) CHECK (freed[i] == 1, "every logger released once");
#elif MODE == 1    // what the console, file and UDP loggers write
  unsigned kind = (unsigned) symx_choice ("kind", 3), l = 1 + (unsigned) symx_choice ("level", 5); fopen_fails = kind == 1 && symx_choice ("fopen fails", 2); bool sock_fails = kind == 2 && symx_choice ("socket fails", 2); sock_result = sock_fails ? -1 : 7;
  bool host = kind == 2 && symx_choice ("host", 2); uint16_t port = kind == 2 ? IN_U16 ("port") : 0;
  static const unsigned lens[] = { 0, 1, 40, 900, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1022, 1023, 1024, 1500 };
  unsigned n = lens[symx_choice ("length", 20)], nn = symx_choice ("name", 2) ? 1100 : 3; char name[1101]; memset (name, 'n', nn); name[nn] = 0;
  char * msg = malloc (n + 1); memset (msg, 'm', n); if (n) msg[n - 1] = 'e'; if (n > 1) msg[0] = (char) IN_U8 ("first"); if (n > 1) ASSUME (msg[0] != 0); msg[n] = 0;
  iot_logger_t * g = kind == 0 ? iot_logger_alloc (name, IOT_LOG_TRACE, true) : kind == 1 ? iot_logger_alloc_file (name, IOT_LOG_TRACE, true, NULL, "path") : iot_logger_alloc_udp (name, IOT_LOG_TRACE, true, NULL, host ? "1.2.3.4" : NULL, port);
  iot_log_log (g, l, "%s", msg);
  bool dead = fopen_fails || sock_fails;
  CHECK (writes == (dead ? 0 : 1), "one write per message");
  if (!dead)
  {
    char want[IOT_LOG_MSG_MAX]; if (n > 1023) msg[1023] = 0; expect (want, sizeof (want), name, l, msg);
    CHECK (outn == strlen (want), "whole line"); for (size_t i = 0; i < outn; i++) CHECK (out[i] == want[i], "line content");
    if (kind == 0) CHECK (outf == (l > 2 ? sxc_out : sxc_err), "errors and warnings to standard error, others to standard output"); else if (kind == 1) CHECK (outf == file, "to the file");
    else { CHECK (dest.sin_port == (uint16_t) (port << 8 | port >> 8), "port"); CHECK (dest.sin_addr.s_addr == (host ? 0x01020304u : 0xffffffffu), "address"); CHECK (bcast == !host, "broadcast"); }
  }
  iot_logger_free (g); free (msg);
  CHECK (opened == closed && socks == sclosed, "file and socket closed");
#elif MODE == 2    // configuration
  const iot_component_factory_t * f = iot_logger_factory (); other = iot_logger_alloc_custom ("o", 2, true, NULL, impl, &ctx[0], NULL); L[0] = other;
  static const char * tos[] = { NULL, "file:p", "file:", "udp:88", "udp:h:9", "udp:123.123.123.123:65535", "udp:1234567890123456:1", "udp:a-very-long-host-name.example.org:77", "udp:", "udp::5", "console" };
  unsigned t = (unsigned) symx_choice ("to", 11), nx = (unsigned) symx_choice ("next", 3), st = (unsigned) symx_choice ("start", 3), ln = (unsigned) symx_choice ("level", 3); sock_result = 5;
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m, "Name", STR ("lg"));
  if (tos[t]) iot_data_string_map_add (m, "To", STR (tos[t]));
  if (nx) iot_data_string_map_add (m, "Next", STR (nx == 1 ? "other" : "missing"));
  if (st) iot_data_string_map_add (m, "Start", iot_data_alloc_bool (st == 1));
  char ls[3] = { 0 }; unsigned want = 2;
  if (ln) { if (ln == 2) { ls[0] = (char) IN_U8 ("level char"); ls[1] = 'x'; } iot_data_string_map_add (m, "Level", STR (ls)); char c = (char) (ls[0] & ~32); want = !ls[0] ? 0 : c == 'E' ? 1 : c == 'W' ? 2 : c == 'I' ? 3 : c == 'D' ? 4 : c == 'T' ? 5 : 2; }
  iot_logger_t * g = (iot_logger_t*) f->config_fn (NULL, m);
  CHECK (g != NULL, "a logger is created");
  CHECK (g->level == (st == 2 ? 0 : want) && g->component.state == (st == 2 ? IOT_COMPONENT_INITIAL : IOT_COMPONENT_RUNNING), "started at the level configured unless told not to");
  if (st == 2) { iot_logger_start (g); CHECK (g->level == want, "level when started"); }
  CHECK (iot_logger_level_from_string (ln ? ls : NULL) == want, "level name"); CHECK (iot_logger_level_to_string (want)[0] == lv[want][0], "name of level");
  if (t == 1) CHECK (opened == 1 && !strcmp (opath, "p"), "opens its file"); else CHECK (!opened, "no file");
  CHECK (socks == (t >= 3 && t <= 7 || t == 9), "socket exactly for UDP"); CHECK (bcast == (t == 3), "broadcast without host");
  if (t == 4) CHECK (!strcmp (host_seen, "h"), "host"); if (t == 5) CHECK (!strcmp (host_seen, "123.123.123.123"), "host of full length");
  iot_logger_set_level (g, 5); want_level = 2; want_msg = "w"; iot_log_warn (g, "w"); CHECK (calls[0] == (nx == 1), "chained to the logger named");
  if (t == 3 || t == 4 || t == 5) { unsigned p = t == 3 ? 88 : t == 4 ? 9 : 65535; CHECK (dest.sin_port == sx_htons ((uint16_t) p), "to the port"); }
  iot_data_t * r = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (r, "Level", STR ("trace")); CHECK (f->reconfig_fn ((iot_component_t*) g, NULL, r) && g->level == 5, "reconfigured"); iot_data_free (r);
  f->free_fn ((iot_component_t*) g); iot_logger_free (other); iot_data_free (m);
  CHECK (opened == closed && socks == sclosed, "file and socket closed");
#else              // lines of concurrent messages are whole
  symx_preempt (PRE);
  static char a[] = "aa", b[] = "bb"; pthread_t t; unsigned kind = (unsigned) symx_choice ("kind", 4); sock_result = 7;      // kind 3: the first use of the default logger
  L[0] = kind == 3 ? NULL : kind == 0 ? iot_logger_alloc ("n", 1, true) : kind == 1 ? iot_logger_alloc_file ("n", 1, true, NULL, "path") : iot_logger_alloc_udp ("n", 1, true, NULL, NULL, 9);
  pthread_create (&t, NULL, worker, a); worker (b); pthread_join (t, NULL);
  char la[64], lb[64]; const char * nm = kind == 3 ? "(null)" : "n"; expect (la, sizeof (la), nm, 1, a); expect (lb, sizeof (lb), nm, 1, b); size_t n = strlen (la);
  CHECK (outn == 2 * n, "both lines"); bool ab = !memcmp (out, la, n) && !memcmp (out + n, lb, n), ba = !memcmp (out, lb, n) && !memcmp (out + n, la, n);
  CHECK (ab || ba, "concurrent messages are written as whole lines"); if (L[0]) iot_logger_free (L[0]);
#endif
  symx_cover ("end");
  LIVE_END ("no leak");
}
