#ifndef ENV_FILE_H
#define ENV_FILE_H
#include "symx.h"
#ifndef SXF_FILES
#define SXF_FILES 6
#endif
#ifndef SXF_NAME
#define SXF_NAME 4300
#endif
#ifndef SXF_SIZE
#define SXF_SIZE 64
#endif
enum { SXF_NONE, SXF_REG, SXF_DIR, SXF_LINK };
typedef struct { int kind; size_t len; char name[SXF_NAME]; char data[SXF_SIZE]; } sxf_file_t;
extern sxf_file_t sxf_files[SXF_FILES];
extern int sxf_faults, sxf_open, sxf_dirs, sxf_regs;       // failures still to inject; open streams, directories, compiled expressions
extern void sxf_step (void);
extern int sxf_find (const char * path);
extern int sxf_put (const char * path, int kind, const void * data, size_t n);
#endif
