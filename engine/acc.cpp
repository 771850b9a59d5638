#include "acc.hpp"
#include <array>
#include <algorithm>
#include <cstring>
#include <set>

using namespace ref;

namespace {
template <class R> R tiny_of(int prec) { return R(4)*R(min_of(prec)); }

} // namespace

// |d/dx| of the Clausen/Glaisher functions, at distance at least `floor` from a multiple of 2 pi
template <class R> static R circ_slope(int64_t n, R x, bool cl, R floor)
{
   R a = r_fabs(x);
   if (a < floor) a = floor;
   if (n == 1) {
      if (!cl) return R(0.5);
      const R s = r_sin(a/2);
      return r_fabs(r_cos(a/2)/(2*s));
   }
   // d/dx Li_n(e^{ix}) = i Li_{n-1}(e^{ix})
   const C<R> d = polylog_circle<R>(n - 1, a);
   const bool even = n % 2 == 0;
   const bool use_im_of_n = cl ? even : !even; // function is Im Li_n -> derivative is Re Li_{n-1}
   return r_fabs(use_im_of_n ? d.re : d.im);
}

template <class R> RV ref_value(const Subject& s, int64_t n, const Point& p)
{
   RV v;
   if (s.family == LI) {
      C<R> z(R(p.a), s.kind == K_R ? R(0) : R(p.b));
      R err = 0;
      const C<R> r = polylog<R>(n, z, &err);
      v.re = r.re;
      v.im = r.im;
      if (s.kind == K_R) {
         v.im = 0;
         R sc = r_fabs(r.re);
         if (p.a > 2) sc = sc + r_fabs(polylog<R>(n - 1, z).re); // conditioning near the real zero
         v.scale = sc;
      } else if (n >= 0) {
         v.scale = cabs(r);
      } else {
         // amplitude of the terms m!/|ln z + 2 pi i k|^{m+1}
         const R m = R(-n);
         const R l = cabs(clog(z));
         const R la = r_lgamma(m + 1) - (m + 1)*r_log(l);
         if (la > R(700) || la < R(-700)) v.valid = false;
         R amp = r_exp(la);
         const R ar = cabs(r);
         if (ar > amp) amp = ar;
         // conditioning with respect to ln z; the roundings of the powers of ln z and z accumulate for large |n|
         const R d = cabs(polylog<R>(n - 1, z));
         v.scale = (1 + m*m/1000)*(ar + (l > 1 ? l*d : d));
         if (!(R(err)*amp < R(2e-17)*R(v.scale))) v.valid = false;
      }
      if (!r_isfin(r.re) || !r_isfin(r.im)) v.valid = false;
   } else {
      const bool cl = s.family == CL;
      const R x = R(p.a);
      const R y = reduce_angle<R>(x);
      const C<R> r = polylog_circle<R>(n, y);
      const bool even = n % 2 == 0;
      v.re = (cl == even) ? r.im : r.re;
      // uncertainty of the reduced angle: within the first period the distance to 0 and 2 pi is known
      // to (almost) full relative precision, beyond it the rounding of x and of the period matters
      R floor = R(eps_of(s.prec))*r_fabs(x);
      bool near = false;
      if (r_fabs(x) < R(s.prec == P80 ? 6.2831853071795864765L : 6.28318530717958586L)) {
         const R d = r_fabs(y);
         if ((near = d < R(1.5L))) floor = R(eps_of(s.prec))*(r_fabs(x) < R(3) ? d : d + R(0.004L));
      }
      if (floor < R(dmin_of(s.prec))) floor = R(dmin_of(s.prec));
      v.scale = r_fabs(R(v.re));
      if (x != 0) {
         R sl = circ_slope<R>(n, y, cl, floor);
         if (floor > R(1e-7)) { // slope within the uncertainty of the angle
            for (R yy : {R(r_fabs(y) + floor), R(r_fabs(y) - floor)}) { const R t = circ_slope<R>(n, yy, cl, floor); if (t > sl) sl = t; }
         }
         // 8 such uncertainties, whatever the tolerance of the function itself; the long double functions
         // and Cl(7..11) are less accurate around their zeros
         const bool loose = s.prec == P80 || (s.family == CL && n > 6 && n < 12);
         v.scale += (near || !loose ? R(8) : R(tol_of(s, n, p)))/R(tol_of(s, n, p))*floor/R(eps_of(s.prec))*sl;
      }
      if (!r_isfin(R(v.re))) v.valid = false;
      // the jump of Sl1 and the pole of Cl1 cannot be resolved
      if (n == 1 && r_fabs(y) < 4*floor) v.valid = false;
   }
   if (!finiteq(v.re) || !finiteq(v.im) || !finiteq(v.scale)) v.valid = false;
   return v;
}
template RV ref_value<Q>(const Subject&, int64_t, const Point&);
template RV ref_value<X>(const Subject&, int64_t, const Point&);

/// real arguments at which the rational approximation of Li4 in [1/2, 8/10] is used (cancellation)
bool li4_mid(const Point& p)
{
   return p.b == 0 && ((p.a >= 0.499L && p.a < 0.801L) || (p.a > 1.249L && p.a < 2.001L));
}

double tol_of(const Subject& s, int64_t n, const Point& p)
{
   if (s.family == LI) {
      if (n == 4 && s.prec == P64 && li4_mid(p)) return 400;
      if (n > 6) { // ln(z)^n/n!: the rounding of ln(z) is amplified
         const double l = (double)std::log(std::fabs(p.a) + std::fabs(p.b));
         return l > 0 && l < 1e4 ? 50 + 2*l : 50;
      }
      if (n < 3) return s.prec == P32 ? 16 : 40;
      return s.prec == P80 ? 100 : 50;
   }
   if (s.kind == K_R) return s.prec == P80 ? 300 : 50;
   if (n <= 6) return 50;
   return s.family == SL ? 40 : n < 12 ? 300 : 60; // Cl(7..11): cancellations between the terms, recurrence for sin(k x)
}

bool in_scope(const Subject& s, int64_t n, const Point& p, bool deep)
{
   if (!std::isfinite(p.a) || !std::isfinite(p.b)) return false;
   if (s.family == LI) {
      if (s.kind != K_R) {
         // modulus and argument must be representable in the formats of the reference
         if (!std::isfinite(hypotl(p.a, p.b))) return false;
         if (s.prec == P80 && p.a > 1 && p.b != 0 && n >= 1 && std::fabs(p.b)/p.a < min_of(s.prec)) return false;
         if (n <= 1 && p.a == 1 && p.b == 0) return false; // pole
         if (n < -150 && !deep) return false;
      } else if (n <= 1 && p.a == 1) return false;
      return true;
   }
   if (n < 1) return false;
   // the angle must be known to better than its period
   if (std::fabs(p.a)*eps_of(s.prec) > 0.125L) return false;
   if (p.a == 0) return !(s.family == CL && n == 1);
   return true;
}

Verdict compare(const Subject& s, int64_t n, const Point& p, const X* out, const RV& v, double* units, double factor)
{
   Verdict r;
   *units = 0;
   if (!v.valid) return r;
   const Q tol = Q(factor*tol_of(s, n, p))*Q(eps_of(s.prec));
   const Q big = Q(max_of(s.prec))*(1 - 2*tol);
   const Q m = hypotq(v.re, v.im);
   if (m > big) return r; // the exact result is not representable
   if (s.family == LI && n < -150 && (std::isinf(out[0]) || std::isinf(out[1]))) return r; // intermediate overflow
   const Q b = tol*v.scale + Q(8)*Q(min_of(s.prec))*Q(eps_of(s.prec)) + (n < 0 || n > 6 ? Q(min_of(s.prec)) : Q(0));
   Q e;
   if (out[0] != out[0] || out[1] != out[1]) e = HUGE_VALQ;
   else if (std::isinf(out[0]) || std::isinf(out[1])) e = HUGE_VALQ;
   else e = hypotq(Q(out[0]) - v.re, Q(out[1]) - v.im);
   if (v.scale > 0 && e > Q(8)*Q(min_of(s.prec))*Q(eps_of(s.prec))) *units = (double)(e/(v.scale*Q(eps_of(s.prec))));
   if (!(e <= b)) {
      r.ok = false;
      char w1[64], w2[64];
      quadmath_snprintf(w1, sizeof w1, "%.25Qg", v.re);
      quadmath_snprintf(w2, sizeof w2, "%.25Qg", v.im);
      r.msg = strf("got (%s, %s), expected (%s, %s), error %.3g eps, allowed %.3g eps", decs(out[0]).c_str(), decs(out[1]).c_str(), w1, w2, *units, factor*tol_of(s, n, p));
   }
   return r;
}

Verdict judge_accuracy(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   if (!in_scope(s, n, k.p, true)) return {};
   X out[4];
   ev(s, k.p, out);
   double u;
   return compare(s, n, k.p, out, ref_value<Q>(s, n, k.p), &u);
}

std::vector<int> select(const Ctx& c, int family, int kind, int prec, int n)
{
   std::vector<int> r;
   for (size_t i = 0; i < c.plain.s.size(); ++i) {
      const Subject& s = c.plain.s[i];
      if (s.family == family && s.kind == kind && (prec < 0 || s.prec == prec) && (n < 0 || s.n == n)) r.push_back((int)i);
   }
   return r;
}

std::vector<Point> explore_points(Ctx& c, const std::vector<int>& subj, const Lattice& l, int64_t n, size_t quota, std::vector<std::pair<Point, Point>>* seams, bool with_closure)
{
   std::vector<Point> pts;
   for (auto& ln : l.lines) for (auto p : ln) { p.n = n; pts.push_back(p); }
   const size_t base = pts.size();
   Lattice ll;
   if (with_closure) {
      ll = l;
      for (auto& ln : ll.lines) for (auto& p : ln) p.n = n;
      for (int i : subj) {
         ClosureStats st;
         closure(c.trace, i, ll, pts, st, quota);
         c.count("closure_calls_traced", st.traced);
         c.transitions += st.traced;
         c.count("closure_decision_boundaries", st.boundaries);
         c.count("closure_decisions", st.decisions);
         c.count("closure_minima", st.minima);
         if (seams) for (auto& pr : st.pairs) seams->push_back(pr);
      }
   }
   c.count("lattice_points", base);
   c.count("closure_points", pts.size() - base);
   std::sort(pts.begin(), pts.end(), [](const Point& x, const Point& y) {
      if (x.n != y.n) return x.n < y.n;
      if (x.a != y.a) return x.a < y.a;
      if (std::signbit(x.a) != std::signbit(y.a)) return std::signbit(x.a);
      if (x.b != y.b) return x.b < y.b;
      return std::signbit(x.b) && !std::signbit(y.b);
   });
   pts.erase(std::unique(pts.begin(), pts.end(), [](const Point& x, const Point& y) { return x.n == y.n && same_bits(x.a, y.a) && same_bits(x.b, y.b); }), pts.end());
   return pts;
}

void sweep_accuracy(Ctx& c, const std::vector<int>& subj, const std::vector<Point>& pts)
{
   if (subj.empty()) return;
   std::vector<std::atomic<double>> worst(2*subj.size()); // off and on the real axis
   for (auto& w : worst) w = 0;
   std::atomic<uint64_t> scoped{0}, calls{0}, invalid{0}, esc{0};
   parallel(pts.size(), [&](size_t b, size_t e) {
      for (size_t i = b; i < e; ++i) {
         if (c.nviol > 50) return;
         const Point& p = pts[i];
         const Subject& s0 = c.plain.s[subj[0]];
         const int64_t n = order_of(s0, p);
         if (!in_scope(s0, n, p, true)) continue;
         scoped++;
         bool exact = s0.prec == P80;
         RV v = exact ? ref_value<Q>(s0, n, p) : ref_value<X>(s0, n, p);
         if (!exact && !v.valid) { v = ref_value<Q>(s0, n, p); exact = true; }
         if (!v.valid) { invalid++; continue; }
         for (size_t j = 0; j < subj.size(); ++j) {
            const Subject& s = c.plain.s[subj[j]];
            X out[4];
            ev(s, p, out);
            calls++;
            double u;
            Verdict r = compare(s, n, p, out, v, &u);
            if (!exact && (!r.ok || u > 0.4*tol_of(s, n, p))) { // settle with the quad precision reference
               v = ref_value<Q>(s, n, p);
               exact = true;
               esc++;
               r = compare(s, n, p, out, v, &u);
            }
            { auto& w = worst[2*j + (p.b == 0)]; if (u > w) w = u; }
            if (!r.ok) { Case k; k.subj = subj[j]; k.p = p; c.report(k, r); }
         }
      }
   });
   c.states += scoped;
   c.transitions += calls;
   c.judged += calls;
   c.q_escalations += esc;
   c.count("reference_not_trusted", invalid);
   for (size_t j = 0; j < subj.size(); ++j) {
      if (worst[2*j] > 0) c.worse(std::string(c.plain.s[subj[j]].name) + " off axis", worst[2*j]);
      c.worse(c.plain.s[subj[j]].name, worst[2*j + 1]);
   }
   if (!pts.empty()) { Case k; k.subj = subj[0]; k.p = pts[pts.size()/3]; c.sample(describe(c, k)); }
}

std::vector<X> dict_for(Ctx& c, int prec)
{
   return rodata_constants(c.plain_path, prec, 1e-30L, 1e30L);
}

/// constants which the implementation compares with (operands that do not vary)
std::vector<X> compared_constants(Ctx& c, const std::vector<int>& subj, int64_t n)
{
   std::vector<X> r;
   const Lattice l = complex_lattice(c.plain.s[subj[0]].prec, 0, {});
   for (int i : subj) {
      const Subject& s = c.trace.s[i];
      std::map<uint64_t, std::pair<double, bool>> ca, cb; // pc -> operand, constant so far
      TraceBuf* b = new TraceBuf;
      for (auto& ln : l.lines)
         for (size_t k = 0; k < ln.size(); k += 7) {
            X in[2] = {ln[k].a, ln[k].b}, out[4];
            c.trace.trace_begin(b);
            guarded_call(s, n, in, out);
            c.trace.trace_end();
            for (int q = 0; q < b->ncmp; ++q) {
               const CmpRec& m = b->cmp[q];
               if (m.kind >= 2) continue;
               auto upd = [&](std::map<uint64_t, std::pair<double, bool>>& mp, double v) {
                  auto it = mp.find(m.pc);
                  if (it == mp.end()) mp[m.pc] = {v, true};
                  else if (it->second.first != v) it->second.second = false;
               };
               upd(ca, m.a);
               upd(cb, m.b);
            }
         }
      delete b;
      for (auto* mp : {&ca, &cb}) for (auto& x : *mp) if (x.second.second && std::isfinite(x.second.first)) r.push_back(std::fabs(x.second.first));
   }
   std::sort(r.begin(), r.end());
   r.erase(std::unique(r.begin(), r.end()), r.end());
   if (r.size() > 64) r.resize(64);
   return r;
}

/// orders n at which an integer comparison of the implementation changes: every comparison
/// whose operands are integers that depend affinely on n is solved for equality; +-2 around it
std::vector<int64_t> int_decisions(Ctx& c, const std::vector<int>& subj)
{
   static const int64_t N[] = {-1000003, -1009, -152, -149, -101, -40, -37, -13, -12, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 36, 37, 58, 59, 98, 101, 152, 153, 998, 1009, 1000003};
   static const X A[][2] = {{0.3L, 0.2L}, {-0.3L, 0.5L}, {0.9L, 0.3L}, {-0.9L, 0.4L}, {1.05L, 0.1L}, {2.3L, 0.7L}, {-5, 3}, {1000, -20}, {0.5L, 0}, {3, 0}, {-3, 0}, {1, 0}, {-1, 0}, {3.1L, 0}, {0, 0}};
   std::set<int64_t> r;
   TraceBuf* b = new TraceBuf;
   for (int i : subj) {
      const Subject& s = c.trace.s[i];
      for (auto& a : A) {
         std::map<uint64_t, std::vector<std::array<int64_t, 3>>> rec;
         for (int64_t n : N) {
            X in[2] = {a[0], s.kind == K_NR ? (X)0 : a[1]}, out[4];
            c.trace.trace_begin(b);
            guarded_call(s, n, in, out);
            c.trace.trace_end();
            for (int q = 0; q < b->ncmp; ++q) if (b->cmp[q].kind >= 2) rec[b->cmp[q].pc].push_back({n, b->cmp[q].ia, b->cmp[q].ib});
         }
         for (auto& m : rec)
            for (size_t k = 0; k + 2 < m.second.size(); ++k) {
               const auto &u = m.second[k], &v = m.second[k + 1], &w = m.second[k + 2];
               const __int128 dn = v[0] - u[0], d0 = (__int128)u[1] - u[2], dd = ((__int128)v[1] - v[2]) - d0;
               if (dd == 0 || (((__int128)w[1] - w[2]) - d0)*dn != dd*(w[0] - u[0])) continue; // not affine in n
               const __int128 t = -d0*dn/dd + u[0]; // zero of the difference
               if (t > (__int128)INT64_MAX - 8 || t < (__int128)INT64_MIN + 8) continue;
               for (int o = -2; o <= 2; ++o) r.insert((int64_t)t + o);
            }
      }
   }
   delete b;
   std::vector<int64_t> v(r.begin(), r.end());
   c.count("orders_at_integer_decisions", v.size());
   if (getenv("VERIF_DEBUG")) { for (auto x : v) fprintf(stderr, "%lld ", (long long)x); fprintf(stderr, "\n"); }
   return v;
}
