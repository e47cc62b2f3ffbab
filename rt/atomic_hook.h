// Adds a scheduling point before every C11 atomic operation of the code under test (bitcode and replay builds alike)
#ifndef SYMX_ATOMIC_HOOK
#define SYMX_ATOMIC_HOOK
#ifndef __cplusplus
#include <stdatomic.h>
extern void symx_yield (void);
#undef atomic_load
#undef atomic_store
#undef atomic_exchange
#undef atomic_fetch_add
#undef atomic_fetch_sub
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_strong
#define atomic_load(p) (symx_yield (), atomic_load_explicit (p, memory_order_seq_cst))
#define atomic_store(p, v) (symx_yield (), atomic_store_explicit (p, v, memory_order_seq_cst))
#define atomic_exchange(p, v) (symx_yield (), atomic_exchange_explicit (p, v, memory_order_seq_cst))
#define atomic_fetch_add(p, v) (symx_yield (), atomic_fetch_add_explicit (p, v, memory_order_seq_cst))
#define atomic_fetch_sub(p, v) (symx_yield (), atomic_fetch_sub_explicit (p, v, memory_order_seq_cst))
#define atomic_compare_exchange_weak(p, e, d) (symx_yield (), atomic_compare_exchange_strong_explicit (p, e, d, memory_order_seq_cst, memory_order_seq_cst))
#define atomic_compare_exchange_strong(p, e, d) (symx_yield (), atomic_compare_exchange_strong_explicit (p, e, d, memory_order_seq_cst, memory_order_seq_cst))
#endif
#endif
