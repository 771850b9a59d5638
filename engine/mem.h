/* Interface between the runtime of the variant "mem" (rt_mem.c) and the scheduler (p_hist.cpp). */
#pragma once
#include <stddef.h>
enum { MEM_READ = 0, MEM_WRITE = 1, MEM_ATOMIC = 2, MEM_ACQ = 4, MEM_REL = 8 };
struct MemHooks {
   void (*access)(void* a, size_t n, int kind, void* pc); /* before every access; may switch threads */
   void (*after)(void* a, int kind);                       /* after an atomic access */
   void (*lock)(void* m);
   int (*trylock)(void* m);
   void (*unlock)(void* m);
   int (*guard_acquire)(void* g); /* like __cxa_guard_acquire */
   void (*guard_release)(void* g, int done);
   void (*alloc)(void* p, size_t n);
};
