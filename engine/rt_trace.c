/* Runtime for -fsanitize-coverage=trace-pc,trace-cmp: records, for the call in progress on this
 * thread, the first occurrence of every comparison (operands) and the set of executed blocks. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

struct CmpRec { uint64_t pc; double d; double a, b; int64_t ia, ib; int8_t sgn; int8_t kind; };
struct TraceBuf { int active; int ncmp; uint64_t calls; uint64_t blockset; struct CmpRec cmp[512]; };

#define TLS static __thread __attribute__((tls_model("initial-exec")))
struct Seen { uint64_t pc; uint32_t ep; };
TLS struct TraceBuf* tb;
TLS struct Seen* seen;
TLS uint32_t epoch;

void verif_trace_begin(struct TraceBuf* b)
{
   if (!seen) seen = (struct Seen*)calloc(4096, sizeof *seen);
   tb = b;
   b->ncmp = 0; b->calls = 0; b->blockset = 0;
   epoch++;
}
void verif_trace_end(void) { tb = 0; }

static int first(uint64_t pc)
{
   uint64_t h = (pc*0x9E3779B97F4A7C15ull) >> 52;
   struct Seen* const seen_ = seen;
   for (int i = 0; i < 4096; i++, h = (h + 1) & 4095) {
      if (seen_[h].ep != epoch) { seen_[h].ep = epoch; seen_[h].pc = pc; return 1; }
      if (seen_[h].pc == pc) return 0;
   }
   return 0;
}

void __sanitizer_cov_trace_pc(void)
{
   if (!tb) return;
   const uint64_t pc = (uint64_t)__builtin_return_address(0);
   tb->calls++;
   if (first(pc)) { uint64_t h = pc*0xD6E8FEB86659FD93ull; h ^= h >> 32; tb->blockset += h*0xD6E8FEB86659FD93ull; }
}
static void recd(uint64_t pc, double a, double b, int kind)
{
   if (!tb || tb->ncmp >= 512 || !first(pc ^ 0x5555000000000000ull)) return;
   struct CmpRec* r = &tb->cmp[tb->ncmp++];
   r->pc = pc; r->a = a; r->b = b; r->d = a - b; r->ia = r->ib = 0; r->kind = kind;
   r->sgn = a < b ? -1 : a > b ? 1 : a == b ? 0 : 2;
}
static void reci(uint64_t pc, int64_t a, int64_t b, int kind)
{
   if (!tb || tb->ncmp >= 512 || !first(pc ^ 0x5555000000000000ull)) return;
   struct CmpRec* r = &tb->cmp[tb->ncmp++];
   r->pc = pc; r->ia = a; r->ib = b; r->a = a; r->b = b; r->d = (double)a - (double)b; r->kind = kind;
   r->sgn = a < b ? -1 : a > b ? 1 : 0;
}
#define PC ((uint64_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmpf(float a, float b) { recd(PC, a, b, 0); }
void __sanitizer_cov_trace_cmpd(double a, double b) { recd(PC, a, b, 1); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { (void)a; (void)b; }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { reci(PC, (int16_t)a, (int16_t)b, 2); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { reci(PC, (int32_t)a, (int32_t)b, 2); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { reci(PC, (int64_t)a, (int64_t)b, 2); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { (void)a; (void)b; }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { reci(PC, (int16_t)b, (int16_t)a, 2); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { reci(PC, (int32_t)b, (int32_t)a, 2); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { reci(PC, (int64_t)b, (int64_t)a, 2); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c)
{
   for (uint64_t i = 0; i < c[0]; i++) reci(PC + ((i + 1) << 48), (int64_t)v, (int64_t)c[2 + i], 3);
}
