// C18: every call returns after a bounded amount of work, without undefined behaviour.
//   op 0: the call is executed in the variant "ub" (undefined behaviour, address and bounds sanitizers,
//         Fortran run-time checks); a trap, abort, signal or hang is the violation
//   op 1: the number of basic blocks executed in the variant "trace" is bounded by a constant
//   op 2: the call is executed in an unoptimized build on stacks (and vector registers) filled with
//         different patterns; different results show the use of an uninitialized value
#include "acc.hpp"
#include <algorithm>
#include <cstring>
#include <set>

namespace {
// Largest number of basic blocks in a call.  Observed maximum on the repaired tree: see evidence.
const uint64_t WORK = 300000;

inline __attribute__((always_inline)) void dirty_registers(uint64_t v)
{
   asm volatile(
      "movq %0, %%xmm0\n punpcklqdq %%xmm0, %%xmm0\n"
      "movaps %%xmm0, %%xmm1\n movaps %%xmm0, %%xmm2\n movaps %%xmm0, %%xmm3\n movaps %%xmm0, %%xmm4\n"
      "movaps %%xmm0, %%xmm5\n movaps %%xmm0, %%xmm6\n movaps %%xmm0, %%xmm7\n movaps %%xmm0, %%xmm8\n"
      "movaps %%xmm0, %%xmm9\n movaps %%xmm0, %%xmm10\n movaps %%xmm0, %%xmm11\n movaps %%xmm0, %%xmm12\n"
      "movaps %%xmm0, %%xmm13\n movaps %%xmm0, %%xmm14\n movaps %%xmm0, %%xmm15\n"
      :: "r"(v) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
__attribute__((noinline)) void dirty_stack(unsigned char b)
{
   volatile unsigned char a[48*1024];
   for (size_t i = 0; i < sizeof a; i += 64) memset((void*)(a + i), b, 64);
   asm volatile("" :: "r"(a) : "memory");
}
const unsigned char PAT[] = {0x41, 0xff, 0x00, 0xbf};
} // namespace

/// call with stack and vector registers filled with a pattern
void dirty_call(const Subject& s, const Point& p, int pattern, X* out)
{
   X in[2] = {p.a, p.b};
   const unsigned char b = PAT[pattern & 3];
   dirty_stack(b);
   dirty_registers(b*0x0101010101010101ull);
   guarded_call(s, p.n, in, out);
}

namespace {
bool bits(const X* a, const X* b) { return same_bits(a[0], b[0]) && same_bits(a[1], b[1]); }

Verdict judge18(Ctx& c, const Case& k)
{
   Verdict v;
   X o[4] = {0, 0, 0, 0}, q[4];
   if (k.op == 0 && c.ub.dl) ev(c.ub.s[k.subj], k.p, o);
   if (k.op == 1 || (k.op == 0 && !c.ub.dl)) {
      static thread_local TraceBuf* b = nullptr;
      if (!b) b = (TraceBuf*)malloc(sizeof *b);
      c.trace.trace_begin(b);
      ev(c.trace.s[k.subj], k.p, o);
      c.trace.trace_end();
      v.units = (double)b->calls;
      if (b->calls > WORK) { v.ok = false; v.msg = strf("%llu basic blocks executed, more than the bound of %llu", (unsigned long long)b->calls, (unsigned long long)WORK); }
   }
   if (k.op == 2) {
      dirty_call(c.mem.s[k.subj], k.p, 0, o);
      for (int i = 1; i < (c.thorough ? 4 : 3); ++i) {
         dirty_call(c.mem.s[k.subj], k.p, i, q);
         if (!bits(o, q)) { v.ok = false; v.msg = "the result depends on uninitialized memory: (" + decs(o[0]) + ", " + decs(o[1]) + ") or (" + decs(q[0]) + ", " + decs(q[1]) + ")"; break; }
      }
   }
   return v;
}

std::vector<X> extremes(int prec)
{
   std::vector<X> r = {(X)INFINITY, -(X)INFINITY, (X)NAN, 0, -0.0L};
   for (X x : {max_of(prec), rnd(prec, max_of(prec)*0.6L), min_of(prec), dmin_of(prec), (X)1, step(1, prec, 1), step(1, prec, -1), rnd(prec, 1/eps_of(prec)), eps_of(prec), (X)9.3e18L, (X)4.4e9L})
      { r.push_back(rnd(prec, x)); r.push_back(-rnd(prec, x)); }
   return r;
}

void c18(Ctx& c)
{
   // groups of subjects of one signature
   std::map<std::pair<std::pair<int, int>, std::pair<int, int>>, std::vector<int>> groups;
   for (size_t i = 0; i < c.plain.s.size(); ++i) {
      const Subject& s = c.plain.s[i];
      groups[{{s.family, s.kind}, {s.prec, s.n}}].push_back((int)i);
   }
   const X pi = 3.14159265358979323846L;
   for (auto& g : groups) {
      const auto& subj = g.second;
      const Subject& s = c.plain.s[subj[0]];
      const bool z = s.kind == K_C || s.kind == K_NC, ord = s.kind == K_NR || s.kind == K_NC;
      const int prec = s.prec;
      const auto ex = extremes(prec);
      // small: for every order; large: for the dedicated functions and selected orders
      std::vector<Point> small, large;
      auto add = [&](std::vector<Point>& v, X a, X b) { Point p; p.a = rnd(prec, a); p.b = rnd(prec, b); v.push_back(p); };
      for (X a : ex) { if (!z) add(small, a, 0); else for (X b : ex) add(large, a, b); }
      if (z) {
         for (size_t i = 0; i < ex.size(); ++i) for (X b : {ex[(i*7 + 3)%ex.size()], (X)0, -0.0L}) add(small, ex[i], b);
         for (X r : {1e-300L, 1e-30L, 1e-3L, 0.03L, 0.1L, 0.2L, 0.3L, 0.5L, 0.7L, 0.9L, 0.999L, 1.0L, 1.1L, 1.5L, 2.5L, 6.0L, 20.0L, 40.0L, 1e3L, 1e8L, 1e30L, 1e300L})
            for (int i = 0; i < 6; ++i) { const X t = pi*(-1 + (2*i + 1.0123456789L)/6); add(small, r*std::cos(t), r*std::sin(t)); }
         for (auto& l : complex_lattice(prec, 0, {}).lines) large.insert(large.end(), l.begin(), l.end());
      } else {
         for (X r : {1e-300L, 1e-30L, 1e-3L, 0.1L, 0.4L, 0.7L, 1.5L, 2.2L, 3.0L, 3.5L, 5.0L, 6.2L, 6.3L, 7.0L, 12.0L, 40.0L, 1e3L, 1e8L, 1e16L, 1e30L, 1e300L}) { add(small, r, 0); add(small, -r, 0); }
         add(small, pi, 0); add(small, 2*pi, 0); add(small, pi/2, 0); add(small, -pi, 0);
         for (auto& l : (s.family == LI ? real_lattice(prec, 1, {}) : angle_lattice(prec, 1, {})).lines) large.insert(large.end(), l.begin(), l.end());
      }
      for (auto& p : small) large.push_back(p);
      std::vector<int64_t> dense = {0}, sel = {0};
      if (ord) {
         std::set<int64_t> d, e;
         const int64_t R = c.thorough ? 3000 : 300;
         for (int64_t n = -R; n <= R; ++n) d.insert(n);
         for (int b = 8; b < 63; ++b) for (int i = -2; i <= 2; ++i) { d.insert(((int64_t)1 << b) + i); d.insert(-((int64_t)1 << b) + i); }
         for (int i = 0; i < 20; ++i) { d.insert(INT64_MAX - i); d.insert(INT64_MIN + i); }
         for (int64_t x = 1000; x > 0 && x < INT64_MAX/10; x *= 10) for (int64_t m : {1, 2, 5}) { d.insert(x*m); d.insert(-x*m); }
         for (int64_t n : int_decisions(c, subj)) for (int i = -1; i <= 1; ++i) { const int64_t m = (int64_t)((uint64_t)n + i); d.insert(m); }
         for (int64_t n : {INT64_MIN, (int64_t)-1000000007, (int64_t)-1001, (int64_t)-300, (int64_t)-171, (int64_t)-60, (int64_t)-30, (int64_t)-29, (int64_t)-12, (int64_t)-5, (int64_t)-4, (int64_t)-3, (int64_t)-2, (int64_t)-1, (int64_t)0, (int64_t)1, (int64_t)2, (int64_t)3, (int64_t)4,
                           (int64_t)5, (int64_t)6, (int64_t)7, (int64_t)8, (int64_t)11, (int64_t)12, (int64_t)13, (int64_t)20, (int64_t)39, (int64_t)63, (int64_t)170, (int64_t)1001, (int64_t)1000000007, INT64_MAX - 1, INT64_MAX}) e.insert(n);
         dense.assign(d.begin(), d.end());
         if (!c.thorough) for (int64_t n : {(int64_t)-1001, (int64_t)-171, (int64_t)-60, (int64_t)-29, (int64_t)-12, (int64_t)-5, (int64_t)-4, (int64_t)3, (int64_t)4, (int64_t)5, (int64_t)8, (int64_t)11, (int64_t)20, (int64_t)63, (int64_t)170, INT64_MAX - 1, (int64_t)1000000007, (int64_t)-1000000007}) e.erase(n);
         sel.assign(e.begin(), e.end());
         c.count("orders", d.size());
      }
      std::vector<Case> k;
      auto push = [&](const Point& p, int64_t n) {
         for (int i : subj)
            for (int op : {0, 1, 2}) {
               if (op == 2 && !c.thorough && (n > 64 || n < -64) && n % 8 != 0 && n < (1 << 20) && n > -(1 << 20)) continue;
               Case x; x.subj = i; x.p = p; x.p.n = n; x.op = op; k.push_back(x); }
      };
      for (int64_t n : dense) for (auto& p : small) push(p, n);
      for (int64_t n : sel) {
         for (auto& p : large) push(p, n);
         // boundaries between the decisions of the implementation
         Lattice l;
         Line ln;
         for (auto& p : large) { Point t = p; t.n = n; if (std::isfinite(p.a) && std::isfinite(p.b)) ln.push_back(t); }
         l.lines.push_back(ln);
         ClosureStats st;
         std::vector<Point> out;
         for (int i : subj) closure(c.trace, i, l, out, st, ord ? 20 : 100);
         c.count("decision_boundaries", st.boundaries);
         for (auto& p : out) push(p, n);
      }
      judge_all(c, judge18, k);
   }
}
Reg r18("C18", c18, judge18);
} // namespace
