/* Runtime for -fsanitize=thread: reports every memory access and synchronization operation of the
 * library under test to the cooperative scheduler of the harness. */
#include "mem.h"
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>

static struct MemHooks* H;
void verif_mem_hooks(struct MemHooks* h) { H = h; }
#define PC __builtin_return_address(0)
#define ACC(a, n, k) do { if (H) H->access((void*)(a), (n), (k), PC); } while (0)

void __tsan_init(void) {}
void __tsan_func_entry(void* p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(N) \
   void __tsan_read##N(void* a) { ACC(a, N, MEM_READ); } \
   void __tsan_write##N(void* a) { ACC(a, N, MEM_WRITE); } \
   void __tsan_unaligned_read##N(void* a) { ACC(a, N, MEM_READ); } \
   void __tsan_unaligned_write##N(void* a) { ACC(a, N, MEM_WRITE); } \
   void __tsan_volatile_read##N(void* a) { ACC(a, N, MEM_READ); } \
   void __tsan_volatile_write##N(void* a) { ACC(a, N, MEM_WRITE); } \
   void __tsan_unaligned_volatile_read##N(void* a) { ACC(a, N, MEM_READ); } \
   void __tsan_unaligned_volatile_write##N(void* a) { ACC(a, N, MEM_WRITE); } \
   void __tsan_read_write##N(void* a) { ACC(a, N, MEM_READ); ACC(a, N, MEM_WRITE); } \
   void __tsan_unaligned_read_write##N(void* a) { ACC(a, N, MEM_READ); ACC(a, N, MEM_WRITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { ACC(a, n, MEM_READ); }
void __tsan_write_range(void* a, size_t n) { ACC(a, n, MEM_WRITE); }
void __tsan_vptr_update(void** a, void* v) { (void)v; ACC(a, 8, MEM_WRITE); }
void __tsan_vptr_read(void** a) { ACC(a, 8, MEM_READ); }

#define AF(a, k) do { if (H) H->after((void*)(a), (k)); } while (0)
static int kd(int mo) /* memory_order -> acquire / release */
{
   return MEM_ATOMIC | ((mo == 1 || mo == 2 || mo == 4 || mo == 5) ? MEM_ACQ : 0) | ((mo == 3 || mo == 4 || mo == 5) ? MEM_REL : 0);
}
#define AT(B, T) \
   T __tsan_atomic##B##_load(const volatile T* a, int mo) { ACC(a, B/8, kd(mo)); T r = *a; AF(a, kd(mo)); return r; } \
   void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); *a = v; AF(a, kd(mo) | MEM_WRITE); } \
   T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; *a = v; AF(a, kd(mo) | MEM_WRITE); return r; } \
   T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; *a = r + v; AF(a, kd(mo) | MEM_WRITE); return r; } \
   T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; *a = r - v; AF(a, kd(mo) | MEM_WRITE); return r; } \
   T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; *a = r & v; AF(a, kd(mo) | MEM_WRITE); return r; } \
   T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; *a = r | v; AF(a, kd(mo) | MEM_WRITE); return r; } \
   T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; *a = r ^ v; AF(a, kd(mo) | MEM_WRITE); return r; } \
   T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; *a = ~(r & v); AF(a, kd(mo) | MEM_WRITE); return r; } \
   int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
   { (void)fmo; ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; int ok = r == *c; if (ok) *a = v; else *c = r; AF(a, kd(mo) | (ok ? MEM_WRITE : 0)); return ok; } \
   int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
   { (void)fmo; ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; int ok = r == *c; if (ok) *a = v; else *c = r; AF(a, kd(mo) | (ok ? MEM_WRITE : 0)); return ok; } \
   T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
   { (void)fmo; ACC(a, B/8, kd(mo) | MEM_WRITE); T r = *a; if (r == c) *a = v; AF(a, kd(mo) | MEM_WRITE); return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- locks, one-time initialization: these bind to the library under test only (-Bsymbolic) ---- */
int pthread_mutex_lock(pthread_mutex_t* m) { if (H) H->lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return H && !H->trylock(m) ? EBUSY : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (H) H->unlock(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (H) H->lock(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (H) H->lock(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (H) H->unlock(m); return 0; }
static int simple_acquire(char* g) { return *g == 0; }
int __cxa_guard_acquire(char* g) { return H ? H->guard_acquire(g) : simple_acquire(g); }
void __cxa_guard_release(char* g) { if (H) H->guard_release(g, 1); else *g = 1; }
void __cxa_guard_abort(char* g) { if (H) H->guard_release(g, 0); }
int pthread_once(pthread_once_t* o, void (*f)(void))
{
   if (__cxa_guard_acquire((char*)o)) { f(); __cxa_guard_release((char*)o); }
   return 0;
}

/* ---- memory blocks change their owner without a race ---- */
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (H) H->alloc(p, n); return p; }
void* _Znwm(size_t n) { return take(n); }
void* _Znam(size_t n) { return take(n); }
void _ZdlPv(void* p) { free(p); }
void _ZdaPv(void* p) { free(p); }
void _ZdlPvm(void* p, size_t n) { (void)n; free(p); }
void _ZdaPvm(void* p, size_t n) { (void)n; free(p); }

/* ---- block operations ---- */
__attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memcpy(void* d, const void* s, size_t n)
{
   ACC(s, n, MEM_READ);
   ACC(d, n, MEM_WRITE);
   for (size_t i = 0; i < n; ++i) ((volatile char*)d)[i] = ((const volatile char*)s)[i];
   return d;
}
__attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memmove(void* d, const void* s, size_t n)
{
   ACC(s, n, MEM_READ);
   ACC(d, n, MEM_WRITE);
   if ((char*)d < (const char*)s) for (size_t i = 0; i < n; ++i) ((volatile char*)d)[i] = ((const volatile char*)s)[i];
   else for (size_t i = n; i-- > 0;) ((volatile char*)d)[i] = ((const volatile char*)s)[i];
   return d;
}
__attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memset(void* d, int c, size_t n)
{
   ACC(d, n, MEM_WRITE);
   for (size_t i = 0; i < n; ++i) ((volatile char*)d)[i] = (char)c;
   return d;
}
