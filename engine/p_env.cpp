// C23: every floating-point environment - rounding direction x (gradual underflow | flush to zero)
// C24: exceptions; C25: compilers and options
#include "acc.hpp"
#include <algorithm>
#include <cfenv>
#include <xmmintrin.h>

namespace {
const int RM[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
enum { NENV = 8 };

/// the call with rounding direction e % 4 and, for e >= 4, subnormal numbers replaced by zero
void ev_env(const Subject& s, const Point& p, int e, X* out)
{
   const X in[2] = {p.a, p.b};
   guarded_run(s, p.n, p.a, p.b, [&] {
      const unsigned csr = _mm_getcsr();
      fesetround(RM[e & 3]);
      if (e & 4) _mm_setcsr(_mm_getcsr() | 0x8040);
      s.call(p.n, in, out);
      _mm_setcsr(csr);
      fesetround(FE_TONEAREST);
   });
}
/// scope of the statement about the value: the intermediate results of the algorithms neither overflow nor underflow
bool env_scope(const Subject& s, int64_t n, const Point& p)
{
   const X lo = std::sqrt(std::sqrt(min_of(s.prec))), hi = 1/lo;
   auto ok = [&](X x) { return x == 0 || (std::fabs(x) > lo && std::fabs(x) < hi); };
   // next to the pole at z = 1 the rounding of 1 - z is everything
   if (s.family == LI && n <= 1 && std::fabs(p.a - 1) < 64*eps_of(s.prec) && std::fabs(p.b) < 64*eps_of(s.prec)) return false;
   return in_scope(s, n, p) && ok(p.a) && ok(p.b);
}
double env_tol(const Subject& s, int64_t n, const Point& p) { return std::max(s.kind == K_NC ? 4096.0 : 1024.0, 4*tol_of(s, n, p)); }
} // namespace

static Verdict compare_env(const Subject& s, int64_t n, const Point& p, int e, const X* out, const RV& v, double* units)
{
   Verdict r;
   *units = 0;
   const Q tol = Q(env_tol(s, n, p))*Q(eps_of(s.prec));
   const Q m = hypotq(v.re, v.im);
   if (m > Q(max_of(s.prec))*(1 - 2*tol)) return r;
   const Q b = tol*(v.scale > 1 ? v.scale : Q(1));
   Q d;
   if (!std::isfinite(out[0]) || !std::isfinite(out[1])) d = HUGE_VALQ;
   else d = hypotq(Q(out[0]) - v.re, Q(out[1]) - v.im);
   *units = (double)(d/((v.scale > 1 ? v.scale : Q(1))*Q(eps_of(s.prec))));
   if (!(d <= b)) {
      r.ok = false;
      char w1[64], w2[64];
      quadmath_snprintf(w1, sizeof w1, "%.25Qg", v.re);
      quadmath_snprintf(w2, sizeof w2, "%.25Qg", v.im);
      static const char* const nm[] = {"to nearest", "upward", "downward", "toward zero"};
      r.msg = strf("rounding %s%s: got (%s, %s), expected (%s, %s), error %.3g eps, allowed %.3g eps", nm[e & 3], e & 4 ? ", flush to zero" : "", decs(out[0]).c_str(), decs(out[1]).c_str(), w1, w2, *units, env_tol(s, n, p));
   }
   return r;
}

static Verdict judge_env(Ctx& c, const Case& k)
{
   if (k.op == 0) { // a call that ended the exploration: every environment
      for (int e = 1; e < NENV; ++e) {
         Case l = k;
         l.op = e;
         const Verdict v = judge_env(c, l);
         if (!v.ok) return v;
      }
      return {};
   }
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   X out[4];
   ev_env(s, k.p, k.op, out); // must return in any case
   if (!env_scope(s, n, k.p)) return {};
   const RV v = ref_value<Q>(s, n, k.p);
   if (!v.valid) return {};
   double u;
   return compare_env(s, n, k.p, k.op, out, v, &u);
}

static void sweep_env(Ctx& c, const std::vector<int>& subj, const std::vector<Point>& pts)
{
   if (subj.empty()) return;
   std::vector<std::atomic<double>> worst(subj.size()*NENV);
   for (auto& w : worst) w = 0;
   std::atomic<uint64_t> calls{0}, states{0}, judged{0}, esc{0};
   parallel(pts.size(), [&](size_t b, size_t e) {
      for (size_t i = b; i < e; ++i) {
         if (c.nviol > 50) return;
         const Point& p = pts[i];
         const Subject& s0 = c.plain.s[subj[0]];
         const int64_t n = order_of(s0, p);
         const bool scope = env_scope(s0, n, p);
         bool exact = s0.prec == P80;
         RV v;
         v.valid = false;
         if (scope) {
            v = exact ? ref_value<Q>(s0, n, p) : ref_value<X>(s0, n, p);
            if (!exact && !v.valid) { v = ref_value<Q>(s0, n, p); exact = true; }
         }
         states++;
         for (size_t j = 0; j < subj.size(); ++j) {
            const Subject& s = c.plain.s[subj[j]];
            for (int env = 1; env < NENV; ++env) {
               X out[4];
               ev_env(s, p, env, out);
               calls++;
               if (!v.valid) continue;
               judged++;
               double u;
               Verdict r = compare_env(s, n, p, env, out, v, &u);
               if (!r.ok && !exact) {
                  v = ref_value<Q>(s, n, p);
                  exact = true;
                  esc++;
                  if (!v.valid) continue;
                  r = compare_env(s, n, p, env, out, v, &u);
               }
               auto& w = worst[j*NENV + env];
               
               if (u > w) w = u;
               if (!r.ok) { Case k; k.subj = subj[j]; k.p = p; k.op = env; c.report(k, r); }
            }
         }
      }
   });
   c.states += states;
   c.transitions += calls;
   c.judged += judged;
   c.q_escalations += esc;
   for (size_t j = 0; j < subj.size(); ++j)
      for (int env = 1; env < NENV; ++env)
         if (worst[j*NENV + env] > 0) c.worse(std::string(c.plain.s[subj[j]].name) + " env " + std::to_string(env) + "", worst[j*NENV + env]);
   if (!pts.empty()) { Case k; k.subj = subj[0]; k.p = pts[pts.size()/3]; k.op = 1; c.sample(describe(c, k)); }
}

static void env_sweep(Ctx& c, void (*sweep)(Ctx&, const std::vector<int>&, const std::vector<Point>&))
{
   const int D = c.thorough ? 6 : 1;
   const size_t quota = c.thorough ? 400 : 40;
   for (int prec : {P32, P64, P80})
      for (int n = 1; n <= 6; ++n) {
         for (int fam : {LI, CL}) {
            const auto sr = select(c, fam, K_R, prec, n);
            if (sr.empty()) continue;
            const Lattice l = fam == LI ? real_lattice(prec, 10*D, dict_for(c, prec)) : angle_lattice(prec, 10*D, dict_for(c, prec));
            sweep(c, sr, explore_points(c, sr, l, 0, quota));
         }
         const auto sc = select(c, LI, K_C, prec, n);
         if (!sc.empty()) sweep(c, sc, explore_points(c, sc, complex_lattice(prec, D, {}), 0, quota));
         if (c.nviol > 50) return;
      }
   const auto li = select(c, LI, K_NC, P64, 0);
   std::vector<int64_t> ns;
   for (int64_t n = -12; n <= 14; ++n) ns.push_back(n);
   for (int64_t n : {-100, -60, -31, -30, -29, -20, 16, 20, 25, 31, 40, 64, 100, 257, 1000, 65536, 1000000}) ns.push_back(n);
   for (int k : {31, 32, 53, 62}) ns.push_back((int64_t)1 << k);
   for (int64_t n : {INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, (int64_t)-1000, (int64_t)-1000000, -((int64_t)1 << 32)}) ns.push_back(n);
   for (int64_t n : ns) { sweep(c, li, explore_points(c, li, complex_lattice(P64, c.thorough ? 1 : 0, {}), n, quota/2)); if (c.nviol > 50) return; }
   for (int fam : {CL, SL}) {
      const auto sg = select(c, fam, K_NR, P64, 0);
      std::vector<int64_t> no;
      for (int64_t n = 1; n <= 20; ++n) no.push_back(n);
      for (int64_t n : {25, 31, 32, 40, 41, 64, 65, 100, 101, 1000, 100001}) no.push_back(n);
      for (int64_t n : {(int64_t)1 << 31, (int64_t)1 << 32, INT64_MAX, INT64_MAX - 1}) no.push_back(n);
      const Lattice l = angle_lattice(P64, D, {});
      for (int64_t n : no) { sweep(c, sg, explore_points(c, sg, l, n, quota)); if (c.nviol > 50) return; }
   }
}
static void c23(Ctx& c) { env_sweep(c, sweep_env); }
static Reg r23("C23", c23, judge_env);

// ---- C24: exceptions -----------------------------------------------------------------------------
/// scope of the statement about overflow: parts are zero or of moderate size, moderate order
static bool flag_scope(const Subject& s, int64_t n, const Point& p)
{
   const X lo = std::sqrt(std::sqrt(min_of(s.prec))), hi = 1/lo;
   auto ok = [&](X x) { return x == 0 || (std::fabs(x) > lo && std::fabs(x) < hi); };
   return ok(p.a) && ok(p.b) && n >= -300 && n <= 300;
}
static Verdict judge_flags(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   Verdict v;
   const bool mod = flag_scope(s, n, k.p);
   const X in[2] = {k.p.a, k.p.b};
   X out[2] = {0, 0};
   int f = 0;
   guarded_run(s, k.p.n, k.p.a, k.p.b, [&] {
      std::feclearexcept(FE_ALL_EXCEPT);
      s.call(k.p.n, in, out);
      f = std::fetestexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW);
   });
   if (!mod) f &= ~FE_OVERFLOW;
   if (!std::isfinite(out[0]) || !std::isfinite(out[1])) return v;
   if (f) {
      v.ok = false;
      v.msg = strf("finite result (%s, %s), but the exception%s%s%s raised", decs(out[0]).c_str(), decs(out[1]).c_str(), f & FE_INVALID ? " invalid" : "", f & FE_DIVBYZERO ? " division-by-zero" : "", f & FE_OVERFLOW ? " overflow" : "");
   }
   return v;
}
static void flags(Ctx& c, const std::vector<int>& subj, const std::vector<Point>& pts)
{
   std::vector<Case> cases;
   for (const Point& p : pts)
      for (int i : subj) { Case k; k.subj = i; k.p = p; cases.push_back(k); }
   judge_all(c, judge_flags, cases);
}
static void c24(Ctx& c) { env_sweep(c, flags); }
static Reg r24("C24", c24, judge_flags);

// ---- C25: compilers and options --------------------------------------------------------------------
static const double BUILD_FACTOR = 2;
static Verdict judge_build(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   if (k.op == 0) return {};
   X out[4];
   ev(c.builds[k.op - 1].s[k.subj], k.p, out);
   if (!in_scope(s, n, k.p)) return {};
   double u;
   Verdict v = compare(s, n, k.p, out, ref_value<Q>(s, n, k.p), &u, BUILD_FACTOR);
   if (!v.ok) v.msg = "build " + c.build_names[k.op - 1] + ": " + v.msg;
   return v;
}
static void sweep_builds(Ctx& c, const std::vector<int>& subj, const std::vector<Point>& pts)
{
   if (subj.empty()) return;
   const size_t nb = c.builds.size();
   std::vector<std::atomic<double>> worst(subj.size()*nb);
   for (auto& w : worst) w = 0;
   std::atomic<uint64_t> calls{0}, states{0}, judged{0}, esc{0};
   parallel(pts.size(), [&](size_t b, size_t e) {
      for (size_t i = b; i < e; ++i) {
         if (c.nviol > 50) return;
         const Point& p = pts[i];
         const Subject& s0 = c.plain.s[subj[0]];
         const int64_t n = order_of(s0, p);
         const bool scope = in_scope(s0, n, p);
         bool exact = s0.prec == P80;
         RV v;
         v.valid = false;
         if (scope) {
            v = exact ? ref_value<Q>(s0, n, p) : ref_value<X>(s0, n, p);
            if (!exact && !v.valid) { v = ref_value<Q>(s0, n, p); exact = true; }
         }
         states++;
         for (size_t j = 0; j < subj.size(); ++j) {
            const Subject& s = c.plain.s[subj[j]];
            for (size_t l = 0; l < nb; ++l) {
               X out[4];
               ev(c.builds[l].s[subj[j]], p, out);
               calls++;
               if (!v.valid) continue;
               judged++;
               double u;
               Verdict r = compare(s, n, p, out, v, &u, BUILD_FACTOR);
               if (!r.ok && !exact) {
                  v = ref_value<Q>(s, n, p);
                  exact = true;
                  esc++;
                  r = compare(s, n, p, out, v, &u, BUILD_FACTOR);
               }
               auto& w = worst[j*nb + l];
               if (v.valid && u > w) w = u;
               if (!r.ok) { r.msg = "build " + c.build_names[l] + ": " + r.msg; Case k; k.subj = subj[j]; k.p = p; k.op = (int)l + 1; c.report(k, r); }
            }
         }
      }
   });
   c.states += states;
   c.transitions += calls;
   c.judged += judged;
   c.q_escalations += esc;
   for (size_t j = 0; j < subj.size(); ++j)
      for (size_t l = 0; l < nb; ++l)
         if (worst[j*nb + l] > 0) c.worse(std::string(c.plain.s[subj[j]].name) + " build " + c.build_names[l], worst[j*nb + l]);
   if (!pts.empty()) { Case k; k.subj = subj[0]; k.p = pts[pts.size()/3]; k.op = 1; c.sample(describe(c, k)); }
}
static void c25(Ctx& c) { env_sweep(c, sweep_builds); }
static Reg r25("C25", c25, judge_build);
