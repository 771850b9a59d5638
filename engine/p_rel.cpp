// C10..C17, C20, C21: structural properties.  Each is a relation between results of the library
// (or an exactly known value) that must hold on every state of the enumerated input space.
#include "acc.hpp"
#include <algorithm>
#include <cstring>
#include <set>

namespace {
typedef ref::C<X> CX;

// ---- points ------------------------------------------------------------------------------------
enum Size { TINY = 0, SMALL = 1, MEDIUM = 2 };
std::vector<Point> points_of(Ctx& c, const std::vector<int>& subj, int64_t n, int size, size_t quota, std::vector<std::pair<Point, Point>>* seams = nullptr)
{
   if (subj.empty()) return {};
   const Subject& s = c.plain.s[subj[0]];
   if (c.thorough) { size += 3; quota *= 8; }
   if (s.kind == K_C || s.kind == K_NC) {
      const auto dict = compared_constants(c, subj, n);
      const int D = size == 0 ? 0 : size == 1 ? 1 : size == 2 ? 2 : size == 3 ? 1 : size == 4 ? 4 : 8;
      return explore_points(c, subj, complex_lattice(s.prec, D, dict), n, quota, seams);
   }
   const auto dict = dict_for(c, s.prec);
   if (s.family == LI) return explore_points(c, subj, real_lattice(s.prec, size <= 0 ? 2 : size == 1 ? 8 : size == 2 ? 30 : 60, dict), n, quota, seams);
   return explore_points(c, subj, angle_lattice(s.prec, size <= 0 ? 1 : size == 1 ? 4 : size == 2 ? 8 : size == 3 ? 4 : 30, size == 0 ? std::vector<X>() : dict), n, quota, seams);
}
// points on the real axis only
std::vector<Point> axis_points(Ctx& c, const std::vector<int>& subj, int64_t n, int size, size_t quota)
{
   const Subject& s = c.plain.s[subj[0]];
   if (c.thorough) { size += 2; quota *= 8; }
   const auto dict = compared_constants(c, subj, n);
   return explore_points(c, subj, real_lattice(s.prec, size == 0 ? 1 : size == 1 ? 6 : 30, dict), n, quota);
}
struct Group { int family, kind, prec, n; std::vector<int> subj; };
// subjects that compute the same function in the same precision
std::vector<Group> groups(const Ctx& c)
{
   std::vector<Group> g;
   for (size_t i = 0; i < c.plain.s.size(); ++i) {
      const Subject& s = c.plain.s[i];
      bool f = false;
      for (auto& x : g) if (x.family == s.family && x.kind == s.kind && x.prec == s.prec && x.n == s.n) { x.subj.push_back((int)i); f = true; }
      if (!f) g.push_back({s.family, s.kind, s.prec, s.n, {(int)i}});
   }
   return g;
}
int find(const Ctx& c, int family, int kind, int lang, int prec, int n)
{
   for (size_t i = 0; i < c.plain.s.size(); ++i) {
      const Subject& s = c.plain.s[i];
      if (s.family == family && s.kind == kind && s.lang == lang && s.prec == prec && s.n == n) return (int)i;
   }
   return -1;
}
std::vector<int64_t> orders(const Ctx& c, int family, bool many)
{
   std::vector<int64_t> r;
   if (family == LI) {
      for (int64_t n = -8; n <= 10; ++n) r.push_back(n);
      for (int64_t n : {-150, -101, -64, -31, -30, -29, -20, -13, 13, 20, 21, 31, 32, 33, 64, 100, 257, 1000}) r.push_back(n);
      if (many) for (int64_t n : {11, 12, 15, 16, 17, 25, 50, 128, 129, 200, 258, 512, 100000, -9, -10, -11, -12, -15, -40, -80, -120}) r.push_back(n);
   } else {
      for (int64_t n = 1; n <= 24; ++n) r.push_back(n);
      for (int64_t n : {31, 32, 33, 40, 41, 64, 99, 100, 1000, 1001}) r.push_back(n);
      if (many) for (int64_t n : {25, 26, 27, 28, 29, 30, 50, 51, 128, 255, 65536}) r.push_back(n);
   }
   if (c.thorough) for (int64_t n = family == LI ? -60 : 1; n <= 60; ++n) r.push_back(n);
   std::sort(r.begin(), r.end());
   r.erase(std::unique(r.begin(), r.end()), r.end());
   return r;
}
// add the orders at which the implementation decides
std::vector<int64_t> orders_closed(Ctx& c, const std::vector<int>& subj, bool many)
{
   auto r = orders(c, c.plain.s[subj[0]].family, many);
   for (int64_t n : int_decisions(c, subj)) if (n > -400 && n < 100000) r.push_back(n);
   std::sort(r.begin(), r.end());
   r.erase(std::unique(r.begin(), r.end()), r.end());
   return r;
}
Case mk(int subj, const Point& p, int op = 0) { Case k; k.subj = subj; k.p = p; k.op = op; return k; }

// ---- helpers for verdicts --------------------------------------------------------------------------
Verdict skip() { Verdict v; v.skipped = true; return v; }
Verdict bound(X diff, X tol, X eps, X scale, X tiny, const std::string& msg, const std::string& key = "")
{
   Verdict v;
   const X b = tol*eps*scale + tiny;
   v.units = scale > 0 && diff > tiny ? (double)((diff - tiny)/(eps*scale)) : 0;
   if (!(v.units < 1e300)) v.units = 1e300;
   if (!(diff <= b)) {
      v.ok = false;
      v.key = key;
      v.msg = msg + strf(": deviation %.4Lg, allowed %.4Lg (%.3g eps of scale %.4Lg)", diff, b, v.units, scale);
   }
   return v;
}
Verdict fail(const std::string& msg, const std::string& key = "") { Verdict v; v.ok = false; v.msg = msg; v.key = key; return v; }
std::string cs(const X* o) { return "(" + decs(o[0]) + ", " + decs(o[1]) + ")"; }
bool fin(const X* o) { return std::isfinite(o[0]) && std::isfinite(o[1]); }
X tiny_for(const Subject& s, int64_t n) { return 16*min_of(s.prec)*(n < 0 || n > 6 ? 1 : eps_of(s.prec)); }
bool cplx(const Subject& s) { return s.kind == K_C || s.kind == K_NC; }
template <class F> void each_group(Ctx& c, F f)
{
   for (auto& g : groups(c)) {
      if (g.kind == K_C || g.kind == K_R) f(g, (int64_t)g.n);
      else for (int64_t n : orders_closed(c, g.subj, false)) { if (g.family != LI && n < 1) continue; f(g, n); }
      if (c.nviol > 50) return;
   }
}

// =================================================================================================
// C10: Clausen and Glaisher functions of every finite angle: parity, boundedness, periodicity
// =================================================================================================
Verdict judge10(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   const bool odd_fn = (s.family == CL) == (n % 2 == 0); // odd function of the angle
   X o[4];
   ev(s, k.p, o);
   const X eps = eps_of(s.prec);
   if (k.op == 0) { // parity
      Point m = k.p;
      m.a = -m.a;
      X q[4];
      ev(s, m, q);
      const X want = odd_fn ? -o[0] : o[0];
      if (same_bits(q[0], want)) return {};
      return bound(std::fabs(q[0] - want), 4, eps, std::fabs(o[0]), 0, strf("parity: f(x) = %s, f(-x) = %s", decs(o[0]).c_str(), decs(q[0]).c_str()));
   }
   if (k.op == 1) { // finite and bounded by the values at the extrema
      if (s.family == CL && n == 1) {
         if (k.p.a == 0) return o[0] > 0 && std::isinf(o[0]) ? Verdict() : fail("Cl1(0) is not +inf");
         if (o[0] != o[0] || o[0] < -0.6931471805599453095L*(1 + 100*eps)) return fail("Cl1(x) is NaN or below -ln 2: " + decs(o[0]));
         return {};
      }
      // |f| <= zeta(n) for the even functions, |f| <= beta-like maxima < zeta(n) for the odd ones
      const X z = n == 1 ? 1.5707963267948966193L : n == 2 && s.family == CL ? 1.0149416064096536251L : ref::zeta_int<X>(n);
      if (!std::isfinite(o[0]) || std::fabs(o[0]) > z*(1 + 400*eps)) return fail(strf("result %s exceeds the maximum %s of the function", decs(o[0]).c_str(), decs(z).c_str()));
      return {};
   }
   // periodicity
   if (std::fabs(k.p.a)*eps > 0.01L || std::fabs(k.p.a) <= 3.1L || !in_scope(s, n, k.p)) return skip();
   Point r = k.p;
   r.a = rnd(s.prec, (X)ref::reduce_angle<Q>(Q(k.p.a)));
   X q[4];
   ev(s, r, q);
   const RV v1 = ref_value<X>(s, n, k.p), v2 = ref_value<X>(s, n, r);
   if (!v1.valid || !v2.valid || (n == 1 && std::fabs(r.a) < 8*eps*std::fabs(k.p.a))) return skip();
   return bound(std::fabs(o[0] - q[0]), tol_of(s, n, k.p), eps, (X)(v1.scale + v2.scale), 16*min_of(s.prec), strf("periodicity: f(x) = %s, f(%s) = %s", decs(o[0]).c_str(), decs(r.a).c_str(), decs(q[0]).c_str()));
}
void c10(Ctx& c)
{
   each_group(c, [&](const Group& g, int64_t n) {
      if (g.family == LI) return;
      std::vector<Case> k;
      for (auto& p : points_of(c, g.subj, n, n <= 12 ? SMALL : TINY, 100))
         for (int i : g.subj) for (int op = 0; op < 3; ++op) k.push_back(mk(i, p, op));
      judge_all(c, judge10, k);
   });
}
Reg r10("C10", c10, judge10);

// =================================================================================================
// C11: special points and signed zeros
// =================================================================================================
Verdict judge11(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   const Point& p = k.p;
   const X eps = eps_of(s.prec);
   X o[4];
   ev(s, p, o);
   if (s.family == LI) {
      if (p.a == 0 && p.b == 0) { // Li_n(+-0 +- 0i) is the argument
         if (!same_bits(o[0], p.a) || (cplx(s) && !same_bits(o[1], p.b))) return fail("Li_n(0) does not return the (signed) zero: " + cs(o));
         return {};
      }
      if (cplx(s) && p.b == 0 && p.a == 1 && n <= 1) { // pole
         if (!(std::isinf(o[0]) && o[0] > 0)) return fail("Li_n(1), n <= 1, is not infinite: " + cs(o));
         return {};
      }
      if (cplx(s) && p.b == 0 && (p.a <= 1 || n <= 0) && std::isfinite(p.a)) {
         // real on the real axis below the cut
         if (n < -150) return skip();
         if (!std::isfinite(o[0])) return skip();
         if (o[1] != 0 && n >= 0 && n <= 6) return fail("the result for a real argument is not real: " + cs(o));
         if (o[1] != 0) {
            if (!in_scope(s, n, p)) return skip();
            const RV v = ref_value<X>(s, n, p);
            if (!v.valid) return skip();
            return bound(std::fabs(o[1]), tol_of(s, n, p), eps, (X)v.scale, tiny_for(s, n), "the result for a real argument is not real: " + cs(o));
         }
         const bool keeps = std::fabs(p.a) < std::sqrt(max_of(s.prec)) && (n == 2 || (n > 2 && n <= 4 && s.prec <= P64));
         if (keeps && std::signbit(o[1]) != std::signbit(p.b)) return fail("the sign of the zero imaginary part is not retained: " + cs(o));
         return {};
      }
      return skip();
   }
   const bool odd_fn = (s.family == CL) == (n % 2 == 0);
   if (p.a == 0) {
      if (odd_fn) return same_bits(o[0], p.a) ? Verdict() : fail("f(+-0) is not the signed zero: " + decs(o[0]));
      if (n == 1) return std::isinf(o[0]) && o[0] > 0 ? Verdict() : fail("Cl1(0) is not +inf");
      return bound(std::fabs(o[0] - ref::zeta_int<X>(n)), 60, eps, 1, 0, "f(0) = " + decs(o[0]) + " is not zeta(n)");
   }
   if (odd_fn) {
      // near the zero at the origin the sign is the sign of the angle; at pi the value vanishes up to rounding
      if (std::fabs(p.a) < 3.0L) return (o[0] > 0) == (p.a > 0) && o[0] != 0 ? Verdict() : fail("wrong sign in (-pi, pi): " + decs(o[0]));
      if (std::fabs(p.a) > 3.1415926L && std::fabs(p.a) < 3.1415927L) {
         const X d = std::fabs(std::fabs(p.a) - 3.14159265358979323846264338327950288L);
         return bound(std::fabs(o[0]), 50, eps, 1, 2*d, "value at pi does not vanish: " + decs(o[0]));
      }
   }
   return skip();
}
void c11(Ctx& c)
{
   each_group(c, [&](const Group& g, int64_t n) {
      std::vector<Case> k;
      const bool z = g.kind == K_C || g.kind == K_NC;
      auto pts = z ? axis_points(c, g.subj, n, SMALL, 200) : points_of(c, g.subj, n, n <= 12 ? SMALL : TINY, 100);
      for (X a : {(X)0.0L, (X)-0.0L, (X)1}) { Point p; p.n = n; p.a = a; pts.push_back(p); }
      for (X a : {3.14159265358979323846264338327950288L, (X)3.14159265358979323846, (X)(float)3.14159265358979323846}) { Point p; p.n = n; p.a = rnd(g.prec, a); pts.push_back(p); p.a = -p.a; pts.push_back(p); }
      for (auto p : pts)
         for (X zero : {(X)0.0L, (X)-0.0L}) {
            if (!z && std::signbit(zero)) continue;
            if (z && p.b != 0) continue;
            p.b = z ? zero : 0;
            for (int i : g.subj) k.push_back(mk(i, p));
         }
      judge_all(c, judge11, k);
   });
}
Reg r11("C11", c11, judge11);

// =================================================================================================
// C12: the branch cut
// =================================================================================================
X cut_im(int64_t n, X x) // magnitude of Im Li_n(x -+ i0)
{
   X v = ref::pi<X>();
   const X l = std::log(x);
   for (int64_t j = 1; j < n; ++j) { v *= l/j; if (v == 0) break; }
   return v;
}
// reference value, remembered for the cases that share the point
const RV& cached_ref(const Subject& s, int64_t n, const Point& p)
{
   struct Memo { int64_t n = INT64_MIN; int prec = -1; X a = 0; RV v; };
   static thread_local Memo m;
   if (m.n != n || m.prec != s.prec || m.a != p.a) {
      m.v = ref_value<X>(s, n, p);
      m.n = n;
      m.prec = s.prec;
      m.a = p.a;
   }
   return m.v;
}
Verdict judge12(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   const X x = k.p.a, eps = eps_of(s.prec);
   if (!(x > 1) || !std::isfinite(x) || n < 1) return skip();
   X o[4];
   ev(s, k.p, o);
   const X im = cut_im(n, x);
   if (!std::isfinite(im)) return skip();
   const double tol = tol_of(s, n, k.p);
   if (k.p.b == 0) { // on the cut: the value from below, for both signs of the zero
      Point m = k.p;
      m.b = -m.b;
      X q[4];
      ev(s, m, q);
      if (!same_bits(o[0], q[0]) || !same_bits(o[1], q[1])) return fail("the value on the cut depends on the sign of the zero imaginary part: " + cs(o) + " " + cs(q));
      const RV& v = cached_ref(s, n, k.p);
      if (!v.valid) return skip();
      // the imaginary part has a closed form: it must also be accurate relative to itself
      const X own = n <= 6 ? im : im + eps*std::fabs(o[0]); // see DESIGN.md
      return bound(std::fabs(o[1] + im), n <= 6 ? 100*(n + 1) : tol, eps, n <= 6 ? own : std::max((X)v.scale, im), tiny_for(s, n), strf("Im on the cut: got %s, expected %s", decs(o[1]).c_str(), decs(-im).c_str()));
   }
   // next to the cut: continuous with the cut from below, complex conjugate from above
   Point m = k.p;
   m.b = 0;
   X q[4];
   ev(s, m, q);
   const RV& v = cached_ref(s, n, m);
   if (!v.valid || !fin(q)) return skip();
   const X wantim = k.p.b < 0 ? q[1] : -q[1];
   const X diff = hypotl(o[0] - q[0], o[1] - wantim);
   X slope = 0;
   if (!(diff <= 2*tol*eps*(X)v.scale)) { // |dLi_n/dz| = |Li_{n-1}/z|
      const CX d1 = n == 1 ? ref::inv(CX(1 - x, -k.p.b)) : ref::polylog<X>(n - 1, CX(x, k.p.b));
      slope = n == 1 ? ref::cabs(d1) : ref::cabs(d1)/x;
   }
   return bound(diff, 2*tol, eps, (X)v.scale, 4*std::fabs(k.p.b)*slope + tiny_for(s, n), strf("next to the cut: got %s, value on the cut %s", cs(o).c_str(), cs(q).c_str()));
}
void c12(Ctx& c)
{
   for (auto& g : groups(c)) {
      if (!(g.kind == K_C || g.kind == K_NC)) continue;
      std::vector<int64_t> ns = {g.n};
      if (g.kind == K_NC) { ns.clear(); for (int64_t n : orders_closed(c, g.subj, true)) if (n >= 1 && n < 2000) ns.push_back(n); }
      for (int64_t n : ns) {
         std::vector<Case> k;
         for (auto p : axis_points(c, g.subj, n, g.n || n <= 10 ? SMALL : TINY, g.n ? 300 : 30)) {
            if (!(p.a > 1)) continue;
            for (X b : {(X)0, dmin_of(g.prec), min_of(g.prec), p.a*min_of(g.prec), p.a*std::sqrt(min_of(g.prec)), p.a*eps_of(g.prec)*eps_of(g.prec), p.a*eps_of(g.prec)/4, eps_of(g.prec)*eps_of(g.prec), (p.a - 1)*eps_of(g.prec), (p.a - 1)*0x1p-10L*eps_of(g.prec)})
               for (int sg : {1, -1}) {
                  if (sg < 0 && b == 0) continue;
                  Point q = p;
                  q.b = rnd(g.prec, sg*b);
                  if (b != 0 && (q.b == 0 || !std::isfinite(q.b))) continue;
                  for (int i : g.subj) k.push_back(mk(i, q));
               }
         }
         judge_all(c, judge12, k);
      }
   }
}
Reg r12("C12", c12, judge12);

// =================================================================================================
// C13: conjugation symmetry
// =================================================================================================
Verdict judge13(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   if (k.p.b == 0 && k.p.a > 1 && n >= 1) return skip(); // the cut: C12
   Point m = k.p;
   m.b = -m.b;
   X o[4], q[4];
   ev(s, k.p, o);
   ev(s, m, q);
   if (!fin(o) || !fin(q)) {
      auto cls = [](X x) { return x != x ? 2 : std::isinf(x) ? 1 : 0; };
      if (cls(o[0]) == cls(q[0]) && cls(o[1]) == cls(q[1])) return {};
      return fail("conjugate arguments give " + cs(o) + " and " + cs(q));
   }
   X scale = hypotl(o[0], o[1]);
   if (n < 0 || n > 6) {
      if (!in_scope(s, n, k.p)) return skip();
      const RV v = ref_value<X>(s, n, k.p);
      if (!v.valid) return skip();
      scale = (X)v.scale;
   }
   return bound(hypotl(o[0] - q[0], o[1] + q[1]), n < 0 || n > 6 ? 100 : 16, eps_of(s.prec), scale, 4*min_of(s.prec)*eps_of(s.prec), "conjugate arguments give " + cs(o) + " and " + cs(q));
}
void c13(Ctx& c)
{
   each_group(c, [&](const Group& g, int64_t n) {
      if (!(g.kind == K_C || g.kind == K_NC)) return;
      std::vector<Case> k;
      for (auto& p : points_of(c, g.subj, n, g.kind == K_C && g.prec != P80 ? MEDIUM : g.kind == K_C ? SMALL : TINY, g.kind == K_C ? 150 : 20)) {
         if (p.b < 0) continue;
         for (int i : g.subj) k.push_back(mk(i, p));
      }
      judge_all(c, judge13, k);
   });
}
Reg r13("C13", c13, judge13);

// =================================================================================================
// C14: languages and precisions agree
// =================================================================================================
Verdict judge14(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   const int base = k.op == 0 ? find(c, s.family, s.kind, CPP, s.prec, s.n) : find(c, s.family, s.kind, CPP, s.prec + 1, s.n);
   if (base < 0 || base == k.subj) return skip();
   X o[4], q[4];
   ev(s, k.p, o);
   if (k.op == 1 && !in_scope(s, n, k.p)) return skip();
   ev(c.plain.s[base], k.p, q);
   const bool nonfin_arg = !std::isfinite(k.p.a) || !std::isfinite(k.p.b);
   if (nonfin_arg) {
      auto bad = [](const X* x) { return !std::isfinite(x[0]) || !std::isfinite(x[1]); };
      return bad(o) == bad(q) ? Verdict() : fail("results for a non-finite argument differ in kind: " + cs(o) + ", " + c.plain.s[base].name + ": " + cs(q));
   }
   if (!fin(o) || !fin(q)) {
      if (k.op == 1) return skip();
      auto cls = [](X x) { return x != x ? 3 : std::isinf(x) ? (x > 0 ? 1 : 2) : 0; };
      if (cls(o[0]) == cls(q[0]) && cls(o[1]) == cls(q[1])) return {};
      return fail("got " + cs(o) + ", " + c.plain.s[base].name + " gives " + cs(q));
   }
   X scale = hypotl(q[0], q[1]);
   X extra = 0;
   double tol = k.op == 0 ? 60 : tol_of(s, n, k.p);
   if (s.kind == K_R && (s.family != LI || k.p.a > 2)) { // conditioning near the zeros of the real functions
      if (!in_scope(s, n, k.p)) { // angles without significant digits
         if (k.op == 1) return skip();
         return {};
      }
      const RV v = ref_value<X>(s, n, k.p);
      if (!v.valid) return skip();
      scale = (X)v.scale;
   }
   if ((s.kind == K_R || s.kind == K_C) && s.family == LI && n == 4 && li4_mid(k.p)) tol = 400;
   return bound(hypotl(o[0] - q[0], o[1] - q[1]), tol, eps_of(s.prec), scale, 16*min_of(s.prec)*eps_of(s.prec) + extra, "got " + cs(o) + ", " + c.plain.s[base].name + " gives " + cs(q));
}
void c14(Ctx& c)
{
   each_group(c, [&](const Group& g, int64_t n) {
      if (g.n == 0) return;
      std::vector<Case> k;
      auto pts = points_of(c, g.subj, n, MEDIUM, 150);
      const X I = INFINITY, N = NAN;
      if (g.kind == K_C) for (X a : {I, -I, N, (X)0, (X)1, (X)-2.5L}) for (X b : {I, -I, N, (X)0, (X)-0.0L, (X)1, (X)-3}) { Point p; p.n = n; p.a = a; p.b = b; pts.push_back(p); }
      else for (X a : {I, -I, N}) { Point p; p.n = n; p.a = a; pts.push_back(p); }
      for (auto& p : pts) for (int i : g.subj) {
         if (c.plain.s[i].lang != CPP) k.push_back(mk(i, p, 0));
         if (g.prec < P80) k.push_back(mk(i, p, 1));
      }
      judge_all(c, judge14, k);
   });
}
Reg r14("C14", c14, judge14);

// =================================================================================================
// C15: general-order and dedicated functions, real and complex functions agree
// =================================================================================================
Verdict judge15(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   int o2 = -1;
   if (k.op == 1 && s.kind == K_NC && n >= 2 && n <= 6) o2 = find(c, LI, K_C, CPP, P64, (int)n);
   if (k.op == 2 && cplx(s) && n >= 2 && n <= 4 && k.p.b == 0) o2 = find(c, LI, K_R, s.lang, s.prec, (int)n);
   if (k.op == 3 && s.kind == K_NR && s.family == CL && n >= 1 && n <= 6) o2 = find(c, CL, K_R, CPP, P64, (int)n);
   if (o2 < 0) return skip();
   if (!std::isfinite(k.p.a) || !std::isfinite(k.p.b)) return skip();
   X o[4], q[4];
   ev(s, k.p, o);
   ev(c.plain.s[o2], k.p, q);
   if (k.op == 2) q[1] = o[1];
   const std::string m = "got " + cs(o) + ", " + c.plain.s[o2].name + " gives " + cs(q);
   if (!fin(o) || !fin(q)) {
      return std::isnan(o[0]) == std::isnan(q[0]) && std::isinf(o[0]) == std::isinf(q[0]) ? Verdict() : fail(m);
   }
   X scale = hypotl(q[0], q[1]);
   if (k.op == 3) {
      if (!in_scope(s, n, k.p)) return skip();
      const RV v = ref_value<X>(s, n, k.p);
      if (!v.valid) return skip();
      scale = (X)v.scale;
   }
   return bound(hypotl(o[0] - q[0], o[1] - q[1]), k.op == 2 && n == 4 && li4_mid(k.p) ? 400 : 60, eps_of(s.prec), scale, 16*min_of(s.prec)*eps_of(s.prec), m);
}
void c15(Ctx& c)
{
   each_group(c, [&](const Group& g, int64_t n) {
      std::vector<Case> k;
      if (g.kind == K_NC && n >= 2 && n <= 6) for (auto& p : points_of(c, g.subj, n, MEDIUM, 200)) k.push_back(mk(g.subj[0], p, 1));
      if (g.kind == K_NC && n >= 2 && n <= 6) for (auto& p : points_of(c, {find(c, LI, K_C, CPP, P64, (int)n)}, n, SMALL, 200)) k.push_back(mk(g.subj[0], p, 1));
      if ((g.kind == K_C || g.kind == K_NC) && n >= 2 && n <= 4)
         for (auto p : axis_points(c, g.subj, n, MEDIUM, 200))
            for (X z : {(X)0.0L, (X)-0.0L}) { p.b = z; for (int i : g.subj) k.push_back(mk(i, p, 2)); }
      if (g.kind == K_NR && g.family == CL && n <= 6) for (auto& p : points_of(c, g.subj, n, MEDIUM, 200)) k.push_back(mk(g.subj[0], p, 3));
      judge_all(c, judge15, k);
   });
}
Reg r15("C15", c15, judge15);

// =================================================================================================
// C16: functional equations
// =================================================================================================
X polylog_scale(const Subject& s, int64_t n, const Point& p, X* cond)
{
   // |Li_n| and |Li_{n-1}| (sensitivity to a relative change of the argument)
   const RV v = ref_value<X>(s, n, p);
   if (!v.valid) return -1;
   const CX d = n == 1 ? CX(p.a, p.b)*ref::inv(CX(1 - p.a, -p.b)) : ref::polylog<X>(n - 1, CX(p.a, p.b));
   *cond = n >= 1 ? ref::cabs(d) : std::max(ref::cabs(d), (X)v.scale);
   if (!std::isfinite(*cond)) return -1;
   return (X)v.scale;
}
Verdict judge16(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   const X eps = eps_of(s.prec);
   const double tol = std::max(tol_of(s, n, k.p), 100.0);
   if (k.op == 1) { // Li_n(e^{i theta}) = (Cl, Sl)
      const X th = k.p.a;
      if (n < 1 || std::fabs(th) > 40 || std::fabs(th) < 1e-12L) return skip();
      Point z = k.p;
      z.a = rnd(s.prec, std::cos(th));
      z.b = rnd(s.prec, std::sin(th));
      if (z.b == 0) return skip();
      X o[4], cl[4], sl[4];
      ev(s, z, o);
      const int fs = find(c, SL, K_NR, CPP, P64, 0);
      int fc = find(c, CL, K_NR, CPP, P64, 0);
      if (s.prec == P80) { fc = find(c, CL, K_R, CPP, P80, (int)n); if (fc < 0) return skip(); }
      Point t = k.p;
      t.n = n;
      ev(c.plain.s[fc], t, cl);
      const bool even = n % 2 == 0;
      const RV vc = ref_value<X>(c.plain.s[fc], n, t);
      X cond;
      const X sc = polylog_scale(s, n, z, &cond);
      if (sc < 0 || !vc.valid) return skip();
      X diff, scale = sc + cond + (X)vc.scale;
      if (s.prec == P64) {
         ev(c.plain.s[fs], t, sl);
         const RV vs = ref_value<X>(c.plain.s[fs], n, t);
         if (!vs.valid) return skip();
         scale += (X)vs.scale;
         diff = even ? hypotl(o[0] - sl[0], o[1] - cl[0]) : hypotl(o[0] - cl[0], o[1] - sl[0]);
      } else {
         diff = std::fabs((even ? o[1] : o[0]) - cl[0]);
         sl[0] = 0;
      }
      return bound(diff, std::max(tol, 300.0), eps, scale, 16*min_of(s.prec), strf("Li_n(e^{i x}) = %s, Cl = %s, Sl = %s", cs(o).c_str(), decs(cl[0]).c_str(), decs(sl[0]).c_str()));
   }
   if (!std::isfinite(k.p.a) || !std::isfinite(k.p.b) || !in_scope(s, n, k.p)) return skip();
   const Point z = k.p;
   if (z.a == 0 && z.b == 0) return skip();
   if (k.op == 2) { // duplication
      if (z.b == 0 && std::fabs(z.a) >= 1) return skip();
      Point w = z, m = z;
      m.a = -m.a;
      m.b = -m.b;
      w.a = rnd(s.prec, (z.a - z.b)*(z.a + z.b));
      w.b = rnd(s.prec, 2*z.a*z.b);
      const X h = hypotl(z.a, z.b);
      if (!std::isfinite(w.a) || !std::isfinite(w.b) || !in_scope(s, n, w) || h < std::sqrt(min_of(s.prec))*16 || h > std::sqrt(max_of(s.prec))/16) return skip();
      if (z.b != 0 && w.b == 0 && w.a > 1) return skip();
      X cz, cm, cw;
      const X s1 = polylog_scale(s, n, z, &cz), s2 = polylog_scale(s, n, m, &cm), s3 = polylog_scale(s, n, w, &cw);
      if (s1 < 0 || s2 < 0 || s3 < 0) return skip();
      const X f = std::exp2((X)(1 - n));
      if (f == 0 || s1 + s2 + f*(s3 + cw) > max_of(s.prec)/1e6L) return skip();
      X a[4], b[4], d[4];
      ev(s, z, a);
      ev(s, m, b);
      ev(s, w, d);
      const X diff = hypotl(a[0] + b[0] - f*d[0], a[1] + b[1] - f*d[1]);
      return bound(diff, std::max({tol, tol_of(s, n, w), tol_of(s, n, m)}), eps, s1 + s2 + f*(s3 + 4*cw), 64*min_of(s.prec)*(1 + f), strf("duplication: Li_n(z) = %s, Li_n(-z) = %s, Li_n(z^2) = %s", cs(a).c_str(), cs(b).c_str(), cs(d).c_str()));
   }
   // inversion
   if (n > 40 || (z.b == 0 && z.a > 0)) return skip();
   const X h = hypotl(z.a, z.b);
   if (h < 1e-30L || h > 1e30L) return skip();
   Point w = z;
   const CX wi = ref::inv(CX(z.a, z.b));
   w.a = rnd(s.prec, wi.re);
   w.b = rnd(s.prec, wi.im);
   if ((z.b != 0 && w.b == 0) || !in_scope(s, n, w)) return skip();
   X cz, cw;
   const X s1 = polylog_scale(s, n, z, &cz), s2 = polylog_scale(s, n, w, &cw);
   if (s1 < 0 || s2 < 0 || s1 + s2 + cw > max_of(s.prec)/1e6L) return skip();
   X a[4], b[4];
   ev(s, z, a);
   ev(s, w, b);
   const X sgn = n % 2 == 0 ? 1 : -1;
   CX rhs(0, 0);
   X rs = 0;
   if (n == 0) rhs = CX(-1, 0), rs = 1;
   else if (n > 0) {
      CX l(ref::logabs(CX(z.a, z.b)), z.b == 0 ? 0 : std::atan2(-z.b, -z.a)), e(1, 0);
      for (int64_t j = 0; j <= n; ++j) {
         if (j > 0) e = (X(1)/j)*(e*l);
         if ((n - j) % 2) continue;
         const CX t = n == j ? -e : (2*ref::polylog_m1<X>(n - j))*e;
         rhs = rhs + t;
         rs += ref::cabs(t);
      }
   }
   const X diff = hypotl(a[0] + sgn*b[0] - rhs.re, a[1] + sgn*b[1] - rhs.im);
   return bound(diff, std::max({tol, tol_of(s, n, w)}), eps, s1 + s2 + 2*cw + rs, 64*min_of(s.prec), strf("inversion: Li_n(z) = %s, Li_n(1/z) = %s", cs(a).c_str(), cs(b).c_str()));
}
void c16(Ctx& c)
{
   each_group(c, [&](const Group& g, int64_t n) {
      if (!(g.kind == K_C || g.kind == K_NC) || n < -100) return;
      std::vector<Case> k;
      if (n >= 1 && n <= 64 && g.prec >= P64) {
         const int fc = find(c, CL, g.prec == P80 ? K_R : K_NR, CPP, g.prec, g.prec == P80 ? (int)n : 0);
         if (fc >= 0) {
            for (auto p : points_of(c, {fc}, n, SMALL, 100)) { p.b = 0; for (int i : g.subj) k.push_back(mk(i, p, 1)); }
         }
      }
      for (auto& p : points_of(c, g.subj, n, g.kind == K_C ? SMALL : TINY, g.kind == K_C ? 100 : 20))
         for (int i : g.subj) { k.push_back(mk(i, p, 2)); k.push_back(mk(i, p, 3)); }
      judge_all(c, judge16, k);
   });
}
Reg r16("C16", c16, judge16);

// =================================================================================================
// C17: non-finite arguments and finite results
// =================================================================================================
Verdict judge17(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   const Point& p = k.p;
   X o[4];
   ev(s, p, o);
   const bool nan_in = std::isnan(p.a) || (cplx(s) && std::isnan(p.b));
   const bool inf_in = std::isinf(p.a) || (cplx(s) && std::isinf(p.b));
   const bool nan_out = std::isnan(o[0]) || (cplx(s) && std::isnan(o[1]));
   const bool fin_out = std::isfinite(o[0]) && (!cplx(s) || std::isfinite(o[1]));
   if (s.family != LI && n < 1) return nan_out ? Verdict() : fail("the result for an order n < 1 is not NaN: " + cs(o));
   if (nan_in) return nan_out ? Verdict() : fail("the result for a NaN argument is not NaN: " + cs(o));
   if (inf_in) {
      if (s.family == LI && n < 1) return skip();
      if (s.family != LI) return nan_out ? Verdict() : fail("the result for an infinite angle is not NaN: " + cs(o));
      return !fin_out ? Verdict() : fail("the result for an infinite argument is finite: " + cs(o));
   }
   // finite argument
   if (s.family == LI && n <= 1 && p.a == 1 && p.b == 0) return skip(); // pole
   if (s.family == CL && n == 1 && !fin_out) { // infinite only where the distance to the pole cannot be resolved
      if (nan_out) return fail("NaN for a finite angle");
      if (o[0] < 0) return fail("Cl1 is -inf");
      if (!in_scope(s, n, p) || !ref_value<X>(s, n, p).valid) return {};
   }
   if (s.family == LI && (n < 1 || (n > 6 && hypotl(p.a, p.b) > max_of(s.prec)/1000))) {
      if (n < -150) return skip();
      if (n > 0 && fin_out) return {};
      const RV v = ref_value<X>(s, n, p);
      if (!v.valid || !(v.scale < Q(max_of(s.prec))/1000)) return skip(); // the exact value or an intermediate may overflow
   }
   if (fin_out) return {};
   return fail("the result for a finite argument is not finite: " + cs(o));
}
void c17(Ctx& c)
{
   auto special = [](int prec) {
      std::vector<X> v = {0.0L, -0.0L, INFINITY, -INFINITY, NAN, 1, -1, 0.5L, -0.3L, 2, -2, 1e10L, -1e10L, max_of(prec), -max_of(prec), max_of(prec)*0.75L, -max_of(prec)*0.75L, min_of(prec), dmin_of(prec), -dmin_of(prec), eps_of(prec), std::sqrt(max_of(prec)), -std::sqrt(max_of(prec)), 1/std::sqrt(max_of(prec)), 3.14159265358979323846L, 6.28318530717958647693L};
      for (X& x : v) if (std::isfinite(x)) x = rnd(prec, x);
      return v;
   };
   for (auto& g : groups(c)) {
      std::vector<int64_t> ns = {g.n};
      if (g.n == 0) {
         ns = orders_closed(c, g.subj, true);
         for (int64_t n : {INT64_MIN, INT64_MIN + 1, (int64_t)INT32_MIN - 1, (int64_t)INT32_MIN, (int64_t)-100000, (int64_t)-171, (int64_t)-170, (int64_t)-1000, (int64_t)-1, (int64_t)0, (int64_t)INT32_MAX, (int64_t)INT32_MAX + 1, INT64_MAX - 1, INT64_MAX}) ns.push_back(n);
      }
      for (int64_t n : ns) {
         std::vector<Case> k;
         const auto sp = special(g.prec);
         const bool z = g.kind == K_C || g.kind == K_NC;
         auto add = [&](X a, X b) { Point p; p.n = n; p.a = a; p.b = b; for (int i : g.subj) k.push_back(mk(i, p)); };
         for (X a : sp) { if (!z) add(a, 0); else for (X b : sp) add(a, b); }
         // finite arguments in the closure of the implementation's decisions
         if (n > -200 && n < 100000)
            for (auto& p : points_of(c, g.subj, n, g.n ? SMALL : TINY, g.n ? 100 : 20)) for (int i : g.subj) k.push_back(mk(i, p));
         if (z && n > -200 && n < 100000) // arguments of extreme size in all directions
            for (int q = 0; q < 64; ++q)
               for (X r : {(X)0.9999L, (X)1.1L, (X)1.35L, (X)0.5L, 2*std::sqrt(1/max_of(g.prec)), 1/max_of(g.prec)*8, std::sqrt(1/max_of(g.prec))}) {
                  const X t = (2*q + 1)*3.14159265358979323846L/64;
                  const X a = rnd(g.prec, max_of(g.prec)*(r*std::cos(t))), b = rnd(g.prec, max_of(g.prec)*(r*std::sin(t)));
                  if (std::isfinite(a) && std::isfinite(b)) add(a, b);
               }
         judge_all(c, judge17, k);
      }
   }
}
Reg r17("C17", c17, judge17);

// =================================================================================================
// C20: zeta and eta values at the integers
// =================================================================================================
Verdict judge20(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   X o[4];
   ev(s, k.p, o);
   const X eps = eps_of(s.prec);
   X want;
   if (s.family == LI) {
      if (k.p.a == 1) {
         if (n <= 1) return std::isinf(o[0]) && o[0] > 0 ? Verdict() : fail("Li_n(1) is not infinite");
         want = ref::zeta_int<X>(n);
      } else if (n <= -REF_ZNEG_N*2 + 4) { // beyond the reference table: monotonic growth means overflow
         if (n % 2 == 0) return o[0] == 0 ? Verdict() : fail("Li_n(-1), n even and negative, is not zero: " + cs(o));
         const int sg = ((-n) % 4 == 1) ? -1 : 1; // Li_{-1}(-1) = -1/4, Li_{-3}(-1) = 1/8
         return std::isinf(o[0]) && (o[0] > 0) == (sg > 0) ? Verdict() : fail("Li_n(-1) does not overflow to the right infinity: " + cs(o));
      } else want = ref::polylog_m1<X>(n);
   } else {
      if (n < 1) return skip();
      const bool even_fn = (s.family == CL) == (n % 2 != 0);
      if (!even_fn) return skip();
      if (k.p.a == 0) { if (n == 1) return skip(); want = ref::zeta_int<X>(n); }
      else want = ref::polylog_m1<X>(n);
   }
   if (std::fabs(want) > max_of(s.prec)) return std::isinf(o[0]) && (o[0] > 0) == (want > 0) ? Verdict() : fail("expected an overflow of the sign of " + decs(want) + ", got " + cs(o));
   if (want == 0) return o[0] == 0 ? Verdict() : fail("expected zero, got " + cs(o));
   return bound(std::fabs(o[0] - want), s.family == LI ? 16 : 60, eps, std::fabs(want), 0, strf("got %s, expected %s", decs(o[0]).c_str(), decs(want).c_str()));
}
void c20(Ctx& c)
{
   std::vector<Case> k;
   for (auto& g : groups(c)) {
      std::vector<int64_t> ns = {g.n};
      if (g.n == 0) {
         ns.clear();
         for (int64_t n = -2000; n <= 5000; ++n) ns.push_back(n);
         for (int e = 13; e < 63; ++e) for (int d = -2; d <= 2; ++d) { ns.push_back(((int64_t)1 << e) + d); ns.push_back(-((int64_t)1 << e) + d); }
         for (int d = 0; d < 4; ++d) { ns.push_back(INT64_MAX - d); ns.push_back(INT64_MIN + d); }
      }
      for (int64_t n : ns)
         for (int i : g.subj) {
            Point p;
            p.n = n;
            if (g.family == LI) { for (X a : {1, -1}) { p.a = a; k.push_back(mk(i, p)); } }
            else for (X a : {(X)0, rnd(g.prec, 3.14159265358979323846264338327950288L)}) { if (n > 5000 && g.family != LI && a != 0) continue; p.a = a; k.push_back(mk(i, p)); }
         }
   }
   judge_all(c, judge20, k);
}
Reg r20("C20", c20, judge20);

// =================================================================================================
// C21: monotonicity, continuity and modulus bounds
// =================================================================================================
Verdict judge21(Ctx& c, const Case& k)
{
   const Subject& s = c.plain.s[k.subj];
   const int64_t n = order_of(s, k.p);
   const X eps = eps_of(s.prec);
   const double tol = tol_of(s, n, k.p);
   const X tiny = tiny_for(s, n);
   X o[4], q[4];
   if (k.op == 1 || k.op == 2) { // two neighbouring arguments on the real axis, x < y <= 1
      const X x = k.p.a, y = k.q.a;
      if (!(x < y) || !(y <= 1) || n < 2) return skip();
      ev(s, k.p, o);
      ev(s, k.q, q);
      const X sc = std::max(std::fabs(o[0]), std::fabs(q[0]));
      const std::string m = strf("x = %s, y = %s, f(x) = %s, f(y) = %s", decs(x).c_str(), decs(y).c_str(), decs(o[0]).c_str(), decs(q[0]).c_str());
      Verdict v = bound(o[0] - q[0], tol, eps, sc, tiny, "not increasing: " + m);
      if (!v.ok) return v;
      // derivative Li_{n-1}(t)/t <= its value at y for 0 < t < y, <= 1 for t < 0
      X slope = 1;
      if (y > 0) slope = n == 2 ? (y < 1 ? -std::log1p(-y)/y : -1) : ref::polylog<X>(n - 1, CX(y, 0)).re/y;
      if (y < 1e-3L) slope = 1.01L;
      if (slope < 0) return v;
      return bound(q[0] - o[0], tol, eps, sc, tiny + slope*(y - x)*1.0001L, "jump: " + m);
   }
   if (k.op == 3) { // decision boundary of the implementation: adjacent arguments
      if (!in_scope(s, n, k.p) || !in_scope(s, n, k.q)) return skip();
      if (n >= 1 && cplx(s) && (k.p.b == 0 || k.q.b == 0 || (k.p.b > 0) != (k.q.b > 0)) && std::max(k.p.a, k.q.a) >= 1) return skip(); // the cut
      ev(s, k.p, o);
      ev(s, k.q, q);
      RV v = ref_value<X>(s, n, k.p);
      const RV w = ref_value<X>(s, n, k.q);
      if (!v.valid || !w.valid) return skip();
      X cond = 0, d = hypotl(k.p.a - k.q.a, k.p.b - k.q.b);
      if (s.family == LI) {
         const X h = std::min(hypotl(k.p.a, k.p.b), hypotl(k.q.a, k.q.b));
         if (h < min_of(s.prec) || d > 1e-3L*h) return skip();
         if (n >= 1) {
            const CX d1 = n == 1 ? CX(k.p.a, k.p.b)*ref::inv(CX(1 - k.p.a, -k.p.b)) : ref::polylog<X>(n - 1, CX(k.p.a, s.kind == K_R ? 0 : k.p.b));
            const CX d2 = n == 1 ? CX(k.q.a, k.q.b)*ref::inv(CX(1 - k.q.a, -k.q.b)) : ref::polylog<X>(n - 1, CX(k.q.a, s.kind == K_R ? 0 : k.q.b));
            cond = std::max(ref::cabs(d1), ref::cabs(d2))*d/h*2;
         } else {
            const CX d1 = ref::polylog<X>(n - 1, CX(k.p.a, k.p.b)), d2 = ref::polylog<X>(n - 1, CX(k.q.a, k.q.b));
            cond = std::max({ref::cabs(d1), ref::cabs(d2), (X)v.scale, (X)w.scale})*d/h*2;
         }
      } else {
         const X a = std::max(std::fabs(k.p.a), std::fabs(k.q.a));
         if (a == 0 || d > 8*eps*a) return skip();
         cond = (X)std::max(v.scale, w.scale)*d/(a*eps)*2*eps;
      }
      if (!std::isfinite(cond)) return skip();
      if (!(v.scale < Q(max_of(s.prec))/1e6)) return skip();
      return bound(hypotl(o[0] - q[0], o[1] - q[1]), 2*std::max(tol, tol_of(s, n, k.q)), eps, (X)std::max(v.scale, w.scale), tiny + cond, "jump at a decision boundary: " + cs(o) + " and " + cs(q) + " at " + decs(k.q.a) + ", " + decs(k.q.b));
   }
   if (k.op == 4) { // orders: real x in (-1, 1), n and n+1
      const X x = k.p.a;
      if (n < 1 || n == INT64_MAX || !(std::fabs(x) < 1) || x == 0) return skip();
      Point p1 = k.p;
      p1.n = n + 1;
      ev(s, k.p, o);
      ev(s, p1, q);
      const X up = std::fabs(o[0]), lo = std::fabs(q[0]), t = 2*std::max(tol, tol_of(s, n + 1, p1))*eps;
      if (!std::isfinite(o[0]) || !std::isfinite(q[0]) || (o[0] > 0) != (x > 0) || (q[0] > 0) != (x > 0)) { if (std::fabs(x) < min_of(s.prec)*4) return skip(); return fail("wrong sign: " + cs(o) + " " + cs(q)); }
      if (x > 0 ? !(lo <= up*(1 + t) + tiny && lo >= x*(1 - t) - tiny) : !(up <= lo*(1 + t) + tiny && lo <= -x*(1 + t) + tiny))
         return fail(strf("Li_n(x) is not between its neighbours in the order: Li_n = %s, Li_{n+1} = %s", decs(o[0]).c_str(), decs(q[0]).c_str()));
      return {};
   }
   // op 5: |Li_n(z)| <= Li_n(|z|), |Li_n(z) - z| <= Li_n(|z|) - |z| in the unit disk, n >= 2
   const X h = hypotl(k.p.a, k.p.b);
   if (n < 2 || !(h <= 1) || h == 0) return skip();
   ev(s, k.p, o);
   const X top = ref::polylog<X>(n, CX(h, 0)).re;
   const X m = hypotl(o[0], o[1]);
   if (!(m <= top*(1 + tol*eps) + tiny)) return fail(strf("|Li_n(z)| = %s exceeds Li_n(|z|) = %s", decs(m).c_str(), decs(top).c_str()));
   if (h > 1e-2L) {
      const X r = hypotl(o[0] - k.p.a, o[1] - k.p.b);
      if (!(r <= top - h + tol*eps*top)) return fail(strf("|Li_n(z) - z| = %s exceeds Li_n(|z|) - |z| = %s", decs(r).c_str(), decs(top - h).c_str()));
   }
   return {};
}
void c21(Ctx& c)
{
   each_group(c, [&](const Group& g, int64_t n) {
      std::vector<Case> k;
      const bool z = g.kind == K_C || g.kind == K_NC;
      std::vector<std::pair<Point, Point>> seams;
      auto pts = points_of(c, g.subj, n, g.n && g.prec != P80 ? MEDIUM : g.n ? SMALL : TINY, g.n ? 150 : 30, &seams);
      for (auto& pr : seams) {
         Case q = mk(0, pr.first, 3);
         q.q = pr.second;
         q.p.n = q.q.n = n;
         for (int i : g.subj) { q.subj = i; k.push_back(q); }
      }
      if (g.family == LI && !z) {
         for (size_t j = 0; j + 1 < pts.size() && pts[j + 1].a <= 1; ++j) { Case q = mk(0, pts[j], 1); q.q = pts[j + 1]; for (int i : g.subj) { q.subj = i; k.push_back(q); } }
      }
      if (z && n >= 2) {
         for (auto& p : pts) for (int i : g.subj) k.push_back(mk(i, p, 5));
         auto ax = axis_points(c, g.subj, n, SMALL, 50);
         for (size_t j = 0; j + 1 < ax.size() && ax[j + 1].a <= 1; ++j) { Case q = mk(0, ax[j], 2); q.q = ax[j + 1]; for (int i : g.subj) { q.subj = i; k.push_back(q); } }
      }
      if (g.kind == K_NC && n >= 1) for (auto& p : axis_points(c, g.subj, n, TINY, 20)) k.push_back(mk(g.subj[0], p, 4));
      judge_all(c, judge21, k);
   });
}
Reg r21("C21", c21, judge21);
} // namespace
