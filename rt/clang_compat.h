// gcc accepts C11 atomic operations on plain objects (scheduler.c uses one), clang does not: supply the missing qualifier
#ifndef SYMX_CLANG_COMPAT
#define SYMX_CLANG_COMPAT
#if defined (__clang__) && !defined (__cplusplus)
#include <stdatomic.h>
#define SYMX_AT(p) ((volatile _Atomic (__typeof__ (((void) 0, *(p)))) *) (p))
#undef atomic_load
#undef atomic_store
#undef atomic_load_explicit
#undef atomic_store_explicit
#define atomic_load_explicit(p, o) __c11_atomic_load (SYMX_AT (p), o)
#define atomic_store_explicit(p, v, o) __c11_atomic_store (SYMX_AT (p), v, o)
#define atomic_load(p) atomic_load_explicit (p, __ATOMIC_SEQ_CST)
#define atomic_store(p, v) atomic_store_explicit (p, v, __ATOMIC_SEQ_CST)
#endif
#endif
