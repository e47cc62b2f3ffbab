// symx harness interface. The same harness source is compiled (a) to LLVM bitcode and executed
// symbolically by engine/symx and (b) natively (gcc + ASan/UBSan) with recorded inputs for replay.
#ifndef SYMX_H
#define SYMX_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
extern uint64_t symx_input (const char * name, unsigned bits);
extern void symx_bytes (const char * name, void * p, size_t n);
extern uint64_t symx_choice (const char * name, uint64_t n);
extern void symx_assume (int c);
extern void symx_check (int c, const char * msg);
extern void symx_fail (const char * msg) __attribute__ ((noreturn));
extern void symx_cover (const char * label);
extern void symx_log (uint64_t v);
extern uint64_t symx_live (void);
extern void symx_dump_live (void);
extern uint64_t symx_concretize (uint64_t v);
extern uint64_t symx_obj_size (const void * p);
extern void symx_prune (void) __attribute__ ((noreturn));
extern void symx_end (void) __attribute__ ((noreturn));
extern void symx_print (const char * m, uint64_t v);
extern int symx_thread_create (void * (*fn) (void *), void * arg);
extern int symx_thread_self (void);
extern int symx_thread_done (int tid);
extern void symx_thread_exit (void) __attribute__ ((noreturn));
extern void symx_thread_join (int tid);
extern void symx_yield (void);
extern void symx_preempt (int n);
extern void symx_block (const void * addr);
extern int symx_block_timed (const void * addr);
extern int symx_wake (const void * addr, int one);
extern void symx_hb_acquire (const void * addr);
extern void symx_hb_release (const void * addr);
#ifdef __cplusplus
}
#endif
#define IN_U8(n) ((uint8_t) symx_input (n, 8))
#define IN_U16(n) ((uint16_t) symx_input (n, 16))
#define IN_U32(n) ((uint32_t) symx_input (n, 32))
#define IN_U64(n) ((uint64_t) symx_input (n, 64))
#define IN_BOOL(n) ((bool) symx_input (n, 1))
static inline uint64_t in_range (const char * n, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = symx_input (n, bits); symx_assume (v >= lo); symx_assume (v <= hi); return v; }
#define CHECK(c, m) symx_check ((c) ? 1 : 0, m)
#define ASSUME(c) symx_assume ((c) ? 1 : 0)
#endif
