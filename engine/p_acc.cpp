// C01..C09: accuracy against the reference model
#include "acc.hpp"
#include <array>
#include <set>
#include <algorithm>
#include <cstring>

static void real_acc(Ctx& c, int family, int n, int prec)
{
   const auto subj = select(c, family, K_R, prec, n);
   if (subj.empty()) return;
   const int D = c.thorough ? 400 : 60;
   const auto dict = dict_for(c, prec);
   const Lattice l = family == LI ? real_lattice(prec, D, dict) : angle_lattice(prec, D, dict);
   const auto pts = explore_points(c, subj, l, 0, c.thorough ? 4000 : 400);
   sweep_accuracy(c, subj, pts);
}

static void cplx_acc(Ctx& c, int n, int prec)
{
   const auto subj = select(c, LI, K_C, prec, n);
   if (subj.empty()) return;
   const int D = c.thorough ? 24 : prec == P80 ? 5 : 9;
   const auto dict = compared_constants(c, subj, 0);
   c.count("compared_constants", dict.size());
   const Lattice l = complex_lattice(prec, D, dict);
   const auto pts = explore_points(c, subj, l, 0, c.thorough ? 4000 : 400);
   sweep_accuracy(c, subj, pts);
}

// ---- C01: real dilogarithm ------------------------------------------------------------------
// fast double precision reference for the exhaustive single precision sweep
static double li2_fast(double x)
{
   // Li2 on (-1, 1/2] by the Bernoulli series in u = -log(1-x), else transformed
   auto core = [](double y) {
      const double u = -std::log1p(-y), u2 = u*u;
      return u + u2*(-0.25 + u*(1/36.0 + u2*(-1/3600.0 + u2*(1/211680.0 + u2*(-1/10886400.0 + u2*(8.8970913564409413e-10 + u2*(-4.0647616451442255e-11 + u2*(1.8921817871213345e-12 - u2*8.9e-14))))))));
   };
   const double z2 = 1.6449340668482264365;
   if (x < -1) { const double l = std::log(-x); const double w = 1/x; return -core(w) - z2 - 0.5*l*l; }
   if (x <= 0.5) return core(x);
   if (x < 1) return z2 - std::log(x)*std::log1p(-x) - core(1 - x);
   if (x == 1) return z2;
   if (x < 2) { const double w = 1 - x; return z2 - std::log(x)*std::log(x - 1) - core(w); }
   const double l = std::log(x);
   return 2*z2 - 0.5*l*l - core(1/x);
}

static void float_exhaustive(Ctx& c)
{
   // every float with exponent in the given range (quick) or every finite float (thorough)
   const auto subj = select(c, LI, K_R, P32, 2);
   const uint32_t lo = c.thorough ? 0u : (127u - 27) << 23, hi = c.thorough ? 0x7f800000u : (127u + 14) << 23;
   const uint64_t N = hi - lo;
   std::atomic<uint64_t> done{0};
   std::vector<float (*)(float)> f;
   for (int i : subj) f.push_back((float (*)(float))c.plain.s[i].raw);
   const float T = (float)tol_of(c.plain.s[subj[0]], 2, Point());
   const double tol = 0.8*T*1.1920928955078125e-07;
   const uint64_t CH = 1 << 14;
   parallel((N + CH - 1)/CH, [&](size_t b, size_t e) {
      for (size_t ch = b; ch < e; ++ch) {
         if (c.nviol > 50) return;
         const uint64_t u0 = lo + ch*CH, u1 = std::min<uint64_t>(hi, u0 + CH);
         for (int sg = 0; sg < 2; ++sg)
            for (uint64_t u = u0; u < u1; ++u) {
               const uint32_t w = (uint32_t)u | (sg ? 0x80000000u : 0u);
               float x;
               memcpy(&x, &w, 4);
               double r = li2_fast(x), sc = std::fabs(r);
               if (x > 2) sc += std::fabs(std::log((double)x - 1));
               for (size_t j = 0; j < f.size(); ++j) {
                  const float g = f[j](x);
                  if (!(std::fabs((double)g - r) <= tol*sc + 1e-44)) {
                     Case k;
                     k.subj = subj[j];
                     k.p.a = x;
                     const Verdict v = judge_accuracy(c, k); // confirm with the quad reference
                     if (!v.ok) c.report(k, v);
                  }
               }
            }
         done += 2*(u1 - u0);
      }
   });
   c.count("float_inputs_exhausted", done);
   c.states += done;
   c.transitions += done*subj.size();
}
static void c01(Ctx& c)
{
   for (int p : {P32, P64, P80}) real_acc(c, LI, 2, p);
   float_exhaustive(c);
}
static Reg r01("C01", c01, judge_accuracy);
static void c02(Ctx& c) { for (int p : {P32, P64, P80}) cplx_acc(c, 2, p); }
static Reg r02("C02", c02, judge_accuracy);
static void c03(Ctx& c) { real_acc(c, LI, 3, P64); real_acc(c, LI, 4, P64); }
static Reg r03("C03", c03, judge_accuracy);
static void c04(Ctx& c) { for (int n : {3, 4, 5, 6}) for (int p : {P64, P80}) cplx_acc(c, n, p); }
static Reg r04("C04", c04, judge_accuracy);

// ---- C05, C06: Li(n,z) ----------------------------------------------------------------------
static void general_li(Ctx& c, const std::vector<int64_t>& ns, int D, size_t quota)
{
   const auto subj = select(c, LI, K_NC, P64, 0);
   std::set<int64_t> done;
   for (int64_t n : ns) {
      if (!done.insert(n).second) continue;
      const auto dict = compared_constants(c, subj, n);
      const Lattice l = complex_lattice(P64, D, dict);
      auto pts = explore_points(c, subj, l, n, quota);
      sweep_accuracy(c, subj, pts);
      if (c.nviol > 50) return;
   }
   c.count("orders", done.size());
}
/// orders that agree with small orders in their low bits
static std::vector<int64_t> wrapped_orders(int lo, int hi)
{
   std::vector<int64_t> ns;
   for (int k : {8, 15, 16, 24, 31, 32, 33, 40, 48, 53, 56, 62, 63})
      for (int j = lo; j <= hi; ++j)
         if (k < 63 || j < 0) ns.push_back((int64_t)((uint64_t)1 << k) + j);
   for (int j = lo; j <= hi; ++j) ns.push_back(5*((int64_t)1 << 32) + j);
   return ns;
}
/// every combination of a wrapped order and a coarse argument
static void wrapped(Ctx& c, const std::vector<int>& subj, bool two_d)
{
   std::vector<Point> pts;
   const std::vector<X> re = two_d ? std::vector<X>{-1e10L, -3, -1.25L, -0.5L, 0.125L, 0.75L, 1.125L, 2.5L, 1000}
                                   : std::vector<X>{-20, -4, -1, 1e-5L, 0.125L, 0.5L, 1, 1.5L, 2, 3, 3.125L, 4, 5, 6, 6.25L, 7, 9, 100};
   for (int64_t n : wrapped_orders(two_d ? -3 : -12, two_d ? 12 : 30))
      for (X a : re)
         for (X b : two_d ? std::vector<X>{-2, -0.5L, 0, 0.25L, 3} : std::vector<X>{0}) {
            Point p;
            p.n = n; p.a = (double)a; p.b = b;
            if (n >= 1) pts.push_back(p);
         }
   sweep_accuracy(c, subj, pts);
   c.count("wrapped_order_points", pts.size());
}
/// every order up to a bound (no closure) at coarse arguments that lie in every region of the implementation
static void all_orders(Ctx& c, const std::vector<int>& subj, int64_t lo, int64_t hi, bool two_d)
{
   std::vector<Point> pts;
   struct Z { double a, b; };
   const std::vector<Z> zs = two_d
      ? std::vector<Z>{{0.25, 0}, {-0.6, 0.3}, {0.1, 0.7}, {0.5, -0.5}, {0.9, 0.2}, {-1.0625, -0.25}, {1.25, 0}, {1.0009765625, -0.001}, {0.3, 1.3}, {-1.7, 0.9}, {3, 0}, {-40, 0}, {20, -7e3}, {-1e100, 1e-3}}
      : std::vector<Z>{{1e-5, 0}, {0.3, 0}, {-0.9, 0}, {1.5, 0}, {2.1, 0}, {2.9, 0}, {3.1415, 0}, {-3.3, 0}, {4, 0}, {5.1, 0}, {6.2, 0}, {7, 0}, {-20, 0}, {1000.5, 0}};
   for (int64_t n = lo; n <= hi; ++n)
      for (const Z& z : zs) { Point p; p.n = n; p.a = z.a; p.b = z.b; pts.push_back(p); }
   sweep_accuracy(c, subj, pts);
   c.count("all_orders_points", pts.size());
}
static void c05(Ctx& c)
{
   std::vector<int64_t> ns;
   for (int64_t n = 1; n <= 20; ++n) ns.push_back(n);
   for (int64_t n : {25, 32, 33, 50, 64, 100, 128, 256, 1000}) ns.push_back(n);
   for (int64_t n : int_decisions(c, select(c, LI, K_NC, P64, 0))) if (n > 20 && n < 100000) ns.push_back(n);
   general_li(c, ns, c.thorough ? 6 : 1, c.thorough ? 400 : 30);
   std::vector<int64_t> more;
   for (int64_t n = 21; n <= 140; ++n) if (c.thorough || n <= 40 || n % 5 == 1) more.push_back(n);
   for (int64_t n : {169, 170, 171, 172, 173, 200, 254, 255, 257, 258, 259, 260, 261, 300, 511, 512, 1023, 1024, 1025, 4096, 10000, 65536, 1000000}) more.push_back(n);
   for (int64_t n : {(int64_t)INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)1 << 53, INT64_MAX - 1, INT64_MAX}) more.push_back(n);
   general_li(c, more, c.thorough ? 1 : 0, c.thorough ? 100 : 10);
   wrapped(c, select(c, LI, K_NC, P64, 0), true);
   all_orders(c, select(c, LI, K_NC, P64, 0), 1, c.thorough ? 50000 : 4200, true);
}
static Reg r05("C05", c05, judge_accuracy);
static void c06(Ctx& c)
{
   std::vector<int64_t> ns;
   for (int64_t n = 0; n >= -12; --n) ns.push_back(n);
   for (int64_t n : {-15, -20, -25, -29, -30, -31, -32, -40, -50, -60, -80, -100, -120, -150}) ns.push_back(n);
   for (int64_t n : int_decisions(c, select(c, LI, K_NC, P64, 0))) if (n < -12 && n >= -150) ns.push_back(n);
   general_li(c, ns, c.thorough ? 6 : 1, c.thorough ? 400 : 30);
   std::vector<int64_t> more;
   for (int64_t n = -13; n >= -149; --n) if (c.thorough || n > -40 || n % 7 == 0) more.push_back(n);
   general_li(c, more, c.thorough ? 1 : 0, c.thorough ? 100 : 10);
   std::vector<int64_t> deep = {-169, -170, -171, -180, -300, -1000};
   if (c.thorough) for (int64_t n : {-151, -165, -172, -173, -200, -256, -257, -500, -1022, -1073, -1074, -1075, -2000, -5000}) deep.push_back(n);
   general_li(c, deep, 0, c.thorough ? 40 : 10);
   all_orders(c, select(c, LI, K_NC, P64, 0), c.thorough ? -1500 : -400, 0, true);
}
static Reg r06("C06", c06, judge_accuracy);

// ---- C07, C08, C09: Clausen and Glaisher functions ---------------------------------------------
static void c07(Ctx& c)
{
   for (int n = 1; n <= 6; ++n) for (int p : {P64, P80}) real_acc(c, CL, n, p);
}
static Reg r07("C07", c07, judge_accuracy);
static void general_circ(Ctx& c, int family)
{
   const auto subj = select(c, family, K_NR, P64, 0);
   const auto dict = dict_for(c, P64);
   std::vector<int64_t> ns;
   for (int64_t n = 1; n <= 64; ++n) ns.push_back(n);
   for (int64_t n : {99, 100, 127, 128, 170, 171, 255, 256, 257, 1000, 1001, 65535, 65536}) ns.push_back(n);
   for (int64_t n : {(int64_t)INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)1 << 53, INT64_MAX - 1, INT64_MAX}) ns.push_back(n);
   for (int64_t n : int_decisions(c, subj)) if (n > 64) ns.push_back(n);
   const Lattice dense = angle_lattice(P64, c.thorough ? 60 : 8, dict), sparse = angle_lattice(P64, c.thorough ? 8 : 1, {});
   for (int64_t n : ns) {
      auto pts = explore_points(c, subj, n <= 32 ? dense : sparse, n, c.thorough ? 1000 : 100);
      sweep_accuracy(c, subj, pts);
      if (c.nviol > 50) return;
   }
   wrapped(c, subj, false);
   all_orders(c, subj, 1, c.thorough ? 200000 : 4200, false);
   c.count("orders", ns.size());
}
static void c08(Ctx& c) { general_circ(c, CL); }
static Reg r08("C08", c08, judge_accuracy);
static void c09(Ctx& c) { general_circ(c, SL); }
static Reg r09("C09", c09, judge_accuracy);
