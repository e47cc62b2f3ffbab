// A small file system with fault injection, standing in for stdio, directories and regular expressions in both the
// symbolic and the native replay build. Buffered output reaches the file when the stream is flushed or closed.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <dirent.h>
#include <regex.h>
#include "env_file.h"
#define W __attribute__((weak))
sxf_file_t sxf_files[SXF_FILES];
int sxf_faults = 0, sxf_open = 0, sxf_dirs = 0, sxf_regs = 0;
W void sxf_step (void) { }      // called after every operation that changes the file system
typedef struct { int used, file, mode, err; size_t pos, n; char buf[SXF_SIZE]; } str_t;   // mode 0 read, 1 write
static str_t streams[4];
static int fault (const char * n) { if (sxf_faults > 0 && symx_choice (n, 2)) { sxf_faults--; return 1; } return 0; }
int sxf_find (const char * p) { for (int i = 0; i < SXF_FILES; i++) if (sxf_files[i].kind && strcmp (sxf_files[i].name, p) == 0) return i; return -1; }
int sxf_put (const char * p, int kind, const void * d, size_t n)
{
  int i = sxf_find (p); if (i < 0) for (i = 0; i < SXF_FILES && sxf_files[i].kind; i++) ;
  if (i == SXF_FILES) symx_fail ("model: file system full");
  if (strlen (p) >= SXF_NAME || n > SXF_SIZE) symx_fail ("model: file name or content too long");
  sxf_files[i].kind = kind; strcpy (sxf_files[i].name, p); sxf_files[i].len = n; for (size_t k = 0; k < n; k++) sxf_files[i].data[k] = ((const char*) d)[k];
  return i;
}
static str_t * S (FILE * f) { str_t * s = (str_t*) f; if (s < streams || s >= streams + 4 || !s->used) symx_fail ("operation on a stream that is not open"); return s; }
FILE * sx_fopen (const char * p, const char * m)
{
  int i = sxf_find (p), k = 0;
  if (fault ("open fails")) { errno = EACCES; return NULL; }
  if (m[0] == 'r' && i < 0) { errno = ENOENT; return NULL; }
  if (m[0] != 'r' && i >= 0 && sxf_files[i].kind != SXF_REG) { errno = EISDIR; return NULL; }
  while (k < 4 && streams[k].used) k++;
  if (k == 4) symx_fail ("model: too many streams");
  if (m[0] == 'w') { i = sxf_put (p, SXF_REG, "", 0); sxf_step (); }
  if (m[0] == 'a' && i < 0) { i = sxf_put (p, SXF_REG, "", 0); sxf_step (); }
  str_t * s = &streams[k]; memset (s, 0, sizeof (*s)); s->used = 1; s->file = i; s->mode = m[0] != 'r'; sxf_open++;
  return (FILE*) s;
}
static int flush (str_t * s)
{
  sxf_file_t * f = &sxf_files[s->file]; size_t n = s->n; int r = 0;
  if (!s->mode || !n) return 0;
  if (fault ("write fails")) { n = n / 2; r = EOF; errno = ENOSPC; s->err = 1; }
  if (f->len + n > SXF_SIZE) symx_fail ("model: file too long");
  for (size_t k = 0; k < n; k++) f->data[f->len++] = s->buf[k];
  s->n = 0; sxf_step ();
  return r;
}
int sx_fflush (FILE * f) { return f ? flush (S (f)) : 0; }
int sx_fclose (FILE * f) { str_t * s = S (f); int r = flush (s); s->used = 0; sxf_open--; return r; }
size_t sx_fwrite (const void * d, size_t z, size_t c, FILE * f)
{
  str_t * s = S (f); size_t n = z * c;
  if (!s->mode) return 0;
  if (n == 0) return 0;
  if (fault ("short write")) { s->err = 1; errno = ENOSPC; for (size_t k = 0; k < n / 2; k++) s->buf[s->n++] = ((const char*) d)[k]; return n / 2 / z; }
  if (s->n + n > SXF_SIZE) symx_fail ("model: file too long");
  for (size_t k = 0; k < n; k++) s->buf[s->n++] = ((const char*) d)[k];
  return c;
}
int sx_fputs (const char * t, FILE * f) { return sx_fwrite (t, 1, strlen (t), f) == strlen (t) ? 1 : EOF; }
int sx_fputc (int c, FILE * f) { char x = (char) c; return sx_fwrite (&x, 1, 1, f) == 1 ? c : EOF; }
int sx_vfprintf (FILE * f, const char * t, va_list ap) { char b[2048]; vsnprintf (b, sizeof (b), t, ap); return sx_fputs (b, f); }
int sx_fprintf (FILE * f, const char * t, ...) { va_list ap; va_start (ap, t); int r = sx_vfprintf (f, t, ap); va_end (ap); return r; }
static size_t length (str_t * s) { return sxf_files[s->file].kind == SXF_DIR ? (size_t) 0x7fffffffffffffff : sxf_files[s->file].len; }
size_t sx_fread (void * d, size_t z, size_t c, FILE * f)
{
  str_t * s = S (f); sxf_file_t * x = &sxf_files[s->file]; size_t n = z * c, a;
  if (s->mode || n == 0) return 0;
  if (x->kind == SXF_DIR) { errno = EISDIR; s->err = 1; return 0; }
  a = s->pos < x->len ? x->len - s->pos : 0; if (a > n) a = n;
  if (fault ("short read")) { a = a / 2; s->err = 1; errno = EIO; }
  for (size_t k = 0; k < a; k++) ((char*) d)[k] = x->data[s->pos++];
  return a / z;
}
int sx_fgetc (FILE * f) { unsigned char c; return sx_fread (&c, 1, 1, f) == 1 ? c : EOF; }
int sx_fseek (FILE * f, long o, int w)
{
  str_t * s = S (f); if (fault ("seek fails")) { errno = ESPIPE; return -1; }
  s->pos = (size_t) o + (w == SEEK_SET ? 0 : w == SEEK_CUR ? s->pos : length (s)); return 0;
}
int sx_fseeko (FILE * f, long o, int w) { return sx_fseek (f, o, w); }
long sx_ftell (FILE * f) { str_t * s = S (f); if (fault ("tell fails")) { errno = ESPIPE; return -1; } return (long) s->pos; }
long sx_ftello (FILE * f) { return sx_ftell (f); }
void sx_rewind (FILE * f) { str_t * s = S (f); s->pos = 0; s->err = 0; }
int sx_ferror (FILE * f) { return S (f)->err; }
int sx_feof (FILE * f) { str_t * s = S (f); return s->pos >= length (s); }
int sx_rename (const char * a, const char * b)
{
  int i = sxf_find (a), j = sxf_find (b);
  if (i < 0) { errno = ENOENT; return -1; }
  if (fault ("rename fails")) { errno = EACCES; return -1; }
  if (j >= 0 && sxf_files[j].kind != SXF_REG) { errno = EISDIR; return -1; }
  if (i == j) return 0;
  if (strlen (b) >= SXF_NAME) symx_fail ("model: file name too long");
  if (j >= 0) sxf_files[j].kind = 0;
  strcpy (sxf_files[i].name, b); sxf_step (); return 0;
}
int sx_remove (const char * p)
{
  int i = sxf_find (p); if (i < 0) { errno = ENOENT; return -1; }
  if (fault ("remove fails")) { errno = EACCES; return -1; }
  sxf_files[i].kind = 0; sxf_step (); return 0;
}
int sx_unlink (const char * p) { return sx_remove (p); }
// directories: files "<dir>/<name>"
typedef struct { int used, next; char dir[SXF_NAME]; struct dirent e; } dir_t;
static dir_t dirs[2];
DIR * sx_opendir (const char * p)
{
  int i = sxf_find (p); if (i < 0 || sxf_files[i].kind != SXF_DIR) { errno = ENOENT; return NULL; }
  if (fault ("opendir fails")) { errno = EACCES; return NULL; }
  dir_t * d = &dirs[dirs[0].used ? 1 : 0]; if (d->used) symx_fail ("model: too many directories");
  d->used = 1; d->next = -2; strcpy (d->dir, p); sxf_dirs++;
  return (DIR*) d;
}
struct dirent * sx_readdir (DIR * x)
{
  dir_t * d = (dir_t*) x; if (!d->used) symx_fail ("operation on a directory that is not open");
  size_t l = strlen (d->dir);
  if (d->next < 0) { strcpy (d->e.d_name, d->next == -2 ? "." : ".."); d->e.d_type = DT_DIR; d->next++; return &d->e; }
  for (; d->next < SXF_FILES; d->next++)
  {
    sxf_file_t * f = &sxf_files[d->next];
    if (f->kind && strncmp (f->name, d->dir, l) == 0 && f->name[l] == '/' && f->name[l + 1] && !strchr (f->name + l + 1, '/'))
    {
      strcpy (d->e.d_name, f->name + l + 1); d->e.d_type = f->kind == SXF_REG ? DT_REG : f->kind == SXF_LINK ? DT_LNK : DT_DIR; d->next++;
      return &d->e;
    }
  }
  return NULL;
}
int sx_closedir (DIR * x) { dir_t * d = (dir_t*) x; if (!d->used) symx_fail ("directory closed twice"); d->used = 0; sxf_dirs--; return 0; }
// regular expressions: literal characters, '.', '\c', '*', leading '^', trailing '$'
int sx_regcomp (regex_t * r, const char * p, int f) { (void) f; if (strchr (p, '[') && !strchr (p, ']')) return REG_EBRACK; r->buffer = (void*) strdup (p); sxf_regs++; return 0; }
void sx_regfree (regex_t * r) { free (r->buffer); r->buffer = NULL; sxf_regs--; }
static int here (const char * p, const char * t);
static int one (const char * p, char c, int * w) { if (*p == '\\' && p[1]) { *w = 2; return c == p[1]; } *w = 1; return *p == '.' ? c != 0 : c == *p; }
static int here (const char * p, const char * t)
{
  int w;
  if (!*p) return 1;
  if (*p == '$' && !p[1]) return !*t;
  one (p, *t, &w);
  if (p[w] == '*') { for (;; t++) { if (here (p + w + 1, t)) return 1; if (!*t || !one (p, *t, &w)) return 0; } }
  return *t && one (p, *t, &w) && here (p + w, t + 1);
}
int sx_regexec (const regex_t * r, const char * t, size_t n, regmatch_t m[], int f)
{
  const char * p = (const char*) r->buffer; (void) n; (void) m; (void) f;
  if (*p == '^') return here (p + 1, t) ? 0 : REG_NOMATCH;
  do if (here (p, t)) return 0; while (*t++);
  return REG_NOMATCH;
}
