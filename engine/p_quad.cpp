// C22: the long double functions where long double has quadruple precision (variant "quad": the
// sources of /repo compiled with -mlong-double-128, so that the code for LDBL_DIG > 18 is used).
#include "acc.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <algorithm>
#include "consts_hp.inc"

namespace ref {
/// reference precision: 60 decimal digits
struct H {
   typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<60>, boost::multiprecision::et_off> M;
   M v;
   H() : v(0) {}
   H(const M& m) : v(m) {}
   H(int x) : v(x) {}
   H(long x) : v(x) {}
   H(double x) : v(x) {}
   H(long double x) : v(x) {}
   explicit H(const char* s) : v(s) {}
   explicit H(Q x)
   {
      if (!finiteq(x)) { v = M((long double)x); return; }
      int e = 0;
      const Q m = frexpq(x, &e); // exact, in two pieces of 64 bits, scaled
      const long double a = (long double)m, b = (long double)(m - (Q)a);
      v = ldexp(M(a) + M(b), e);
   }
};
inline H operator+(const H& a, const H& b) { return H(H::M(a.v + b.v)); }
inline H operator-(const H& a, const H& b) { return H(H::M(a.v - b.v)); }
inline H operator*(const H& a, const H& b) { return H(H::M(a.v*b.v)); }
inline H operator/(const H& a, const H& b) { return H(H::M(a.v/b.v)); }
inline H operator-(const H& a) { return H(H::M(-a.v)); }
inline H& operator+=(H& a, const H& b) { a.v += b.v; return a; }
inline H& operator-=(H& a, const H& b) { a.v -= b.v; return a; }
inline H& operator*=(H& a, const H& b) { a.v *= b.v; return a; }
inline bool operator<(const H& a, const H& b) { return a.v < b.v; }
inline bool operator>(const H& a, const H& b) { return a.v > b.v; }
inline bool operator<=(const H& a, const H& b) { return a.v <= b.v; }
inline bool operator>=(const H& a, const H& b) { return a.v >= b.v; }
inline bool operator==(const H& a, const H& b) { return a.v == b.v; }
inline bool operator!=(const H& a, const H& b) { return a.v != b.v; }
inline H r_log(const H& x) { return H(H::M(log(x.v))); }
inline H r_log1p(const H& x)
{
   const H::M u = 1 + x.v;
   if (fabs(x.v) > 0.01) return H(H::M(log(u)));
   if (u == 1) return x;
   // x - x^2/2 + ... (20 to 40 terms)
   H::M s = 0, p = x.v;
   for (int k = 1; k < 200; ++k) { const H::M t = p/k; s += t; if (fabs(t) < fabs(s)*1e-62) break; p *= -x.v; }
   return H(s);
}
inline H r_exp(const H& x) { return H(H::M(exp(x.v))); }
inline H r_sin(const H& x) { return H(H::M(sin(x.v))); }
inline H r_cos(const H& x) { return H(H::M(cos(x.v))); }
inline H r_pow(const H& x, const H& y) { return H(H::M(pow(x.v, y.v))); }
inline H r_atan2(const H& y, const H& x) { return H(H::M(atan2(y.v, x.v))); }
inline H r_hypot(const H& a, const H& b) { return H(H::M(sqrt(a.v*a.v + b.v*b.v))); }
inline H r_fabs(const H& x) { return H(H::M(fabs(x.v))); }
inline H r_floor(const H& x) { return H(H::M(floor(x.v))); }
inline bool r_isfin(const H& x) { return isfinite(x.v); }
inline H r_eps(const H&) { return H(1e-58); }
template <> inline H r_lgamma(H x) { return x; } // n < 0 only
template <> inline H pi<H>() { static const H p(HP_PI); return p; }
template <> inline H zeta_int<H>(int64_t n)
{
   struct T {
      std::vector<H> pos, neg;
      T() { for (auto s : HP_ZPOS) pos.push_back(H(s)); for (auto s : HP_ZNEG) neg.push_back(H(s)); }
   };
   static const T t;
   if (n >= 180) return H(1) + r_pow(H(2), H((long)-n));
   if (n >= 0) return t.pos[n];
   if (n % 2 == 0) return 0;
   return t.neg[(1 - n)/2 - 1];
}
} // namespace ref

using namespace ref;

namespace {
const Q EPSQ = FLT128_EPSILON;

/// the argument with (op & 1) the bits beyond those of the 80-bit format filled
Q low(X x, int op, int which)
{
   if (!(op & 1) || x == 0 || !std::isfinite(x)) return x;
   const Q r = Q(x)*(1 + (which ? Q(0x1.6ba3d57cp-65) : Q(0x1.9c4e1b9p-66)));
   return finiteq(r) ? r : Q(x);
}
typedef void (*QCall)(int64_t, const Q*, Q*);

/// call with the guard of the 80-bit functions (the guard records the 80-bit argument)
void call_quad(Ctx& c, const Case& k, Q* out)
{
   const Subject& s = c.mem.s[k.subj];
   const Q in[2] = {low(k.p.a, k.op, 0), low(k.p.b, k.op, 1)};
   guarded_run(s, k.p.n, k.p.a, k.p.b, [&] { ((QCall)(void*)s.call)(k.p.n, in, out); });
}
struct QV { bool valid = true; H re, im, scale; };

H slope(int n, H x, H floor)
{
   H a = r_fabs(x);
   if (a < floor) a = floor;
   if (n == 1) return r_fabs(r_cos(a/H(2))/(H(2)*r_sin(a/H(2))));
   const C<H> d = polylog_circle<H>(n - 1, a);
   return r_fabs(n % 2 == 0 ? d.re : d.im);
}
QV value(const Subject& s, const Case& k)
{
   QV v;
   const Q a = low(k.p.a, k.op, 0), b = low(k.p.b, k.op, 1);
   const H e((long double)EPSQ);
   if (s.family == LI) {
      const C<H> z(H(a), s.kind == K_R ? H(0) : H(b));
      const C<H> r = polylog<H>(s.n, z);
      v.re = r.re;
      v.im = s.kind == K_R ? H(0) : r.im;
      if (s.kind == K_R) {
         v.scale = r_fabs(r.re);
         if (a > 2) v.scale += r_fabs(polylog<H>(s.n - 1, z).re);
      } else v.scale = cabs(r);
   } else {
      const H x(a), y = reduce_angle<H>(x);
      v.re = clausen<H>(s.n, y);
      const H d = r_fabs(y);
      H floor = e*r_fabs(x);
      bool near = false;
      if (r_fabs(x) < H(6.28318530717958647L) && (near = d < H(1.5))) floor = e*(r_fabs(x) < H(3) ? d : d + H(0.004));
      v.scale = r_fabs(v.re);
      const H dmin(FLT128_DENORM_MIN);
      if (floor < dmin) floor = dmin;
      if (a != 0) {
         H sl = slope(s.n, y, floor);
         if (floor > H(1e-7)) for (H yy : {r_fabs(y) + floor, r_fabs(y) - floor}) { const H t = slope(s.n, yy, floor); if (t > sl) sl = t; }
         v.scale += (near ? H(8)/H(300) : H(1))*floor/e*sl;
      }
   }
   v.valid = r_isfin(v.re) && r_isfin(v.im) && r_isfin(v.scale);
   return v;
}
/// in units of eps = 2^-112.  The rational approximations of Cl3..Cl6 are not made for quadruple
/// precision in any configuration; they have 26 to 27 digits there (2^33 eps = 1.7e-24).
double tolerance(const Subject& s) { return s.family == LI ? (s.n == 2 ? 100 : 40) : s.n == 2 ? 300 : 0x1p33; }
bool scope(const Subject& s, const Case& k)
{
   if (!std::isfinite(k.p.a) || !std::isfinite(k.p.b)) return false;
   if (s.family == LI) {
      if (s.kind == K_R) return true;
      if (!finiteq(hypotq(low(k.p.a, k.op, 0), low(k.p.b, k.op, 1)))) return false;
      return !(k.p.a > 1 && k.p.b != 0 && std::fabs(k.p.b)/k.p.a < min_of(P80));
   }
   return std::fabs(Q(k.p.a))*EPSQ <= Q(0.125);
}
std::string show(Q x) { char b[80]; quadmath_snprintf(b, sizeof b, "%.37Qg", x); return b; }

Verdict judge22(Ctx& c, const Case& k)
{
   Verdict r;
   const Subject& s = c.mem.s[k.subj];
   Q o[4] = {0, 0, 0, 0};
   call_quad(c, k, o);
   if (!scope(s, k)) { r.skipped = true; return r; }
   if (k.op >= 2) { // parity or conjugation
      Case m = k;
      if (s.family == CL) m.p.a = -m.p.a;
      else m.p.b = -m.p.b;
      if (s.family == LI && (s.kind == K_R || k.p.b == 0)) { r.skipped = true; return r; }
      Q q[4];
      call_quad(c, m, q);
      const Q sg = s.family == CL && s.n % 2 == 0 ? -1 : 1;
      const Q d = s.family == CL ? fabsq(o[0] - sg*q[0]) : hypotq(o[0] - q[0], o[1] + q[1]);
      const Q sc = s.family == CL ? fabsq(o[0]) : hypotq(o[0], o[1]);
      r.units = sc > 0 ? (double)(d/(sc*EPSQ)) : 0;
      if (!(d <= 32*EPSQ*sc + FLT128_MIN*EPSQ)) { r.ok = false; r.msg = strf("got (%s, %s) and (%s, %s) at the opposite argument", show(o[0]).c_str(), show(o[1]).c_str(), show(q[0]).c_str(), show(q[1]).c_str()); }
      return r;
   }
   const QV v = value(s, k);
   if (!v.valid) { r.skipped = true; return r; }
   const H e((long double)EPSQ);
   H d;
   bool bad = !finiteq(o[0]) || !finiteq(o[1]);
   if (!bad) d = r_hypot(H(o[0]) - v.re, H(o[1]) - v.im);
   const H tiny = H((long double)FLT128_MIN)*H(8)*e; // below the subnormal spacing times 8
   if (!bad && d > tiny && v.scale > H(0)) r.units = (double)(d/(v.scale*e)).v.convert_to<double>();
   bad = bad || !(d <= H(tolerance(s))*e*v.scale + tiny);
   if (bad) {
      r.ok = false;
      r.msg = strf("quadruple precision: got (%s, %s), expected (%s, %s), error %.3g eps, allowed %.0f eps", show(o[0]).c_str(), show(o[1]).c_str(),
         v.re.v.str(36).c_str(), v.im.v.str(36).c_str(), r.units, tolerance(s));
   }
   return r;
}

bool brief(X x)
{
   if (x == 0) return false;
   int e;
   const X m = std::frexp(x, &e)*4096;
   return m == std::floor(m);
}

void c22(Ctx& c)
{
   for (int kind : {K_R, K_C}) for (int fam : {LI, CL}) for (int n = 2; n <= 6; ++n) {
      const auto subj = select(c, fam, kind, P80, n);
      if (subj.empty()) continue;
      const auto dict = dict_for(c, P80);
      Lattice l;
      if (kind == K_C) l = complex_lattice(P80, c.thorough ? 8 : 1, compared_constants(c, subj, 0));
      else l = fam == LI ? real_lattice(P80, c.thorough ? 60 : 8, dict) : angle_lattice(P80, c.thorough ? 60 : 8, dict);
      const auto pts = explore_points(c, subj, l, 0, c.thorough ? 2000 : 200);
      std::vector<Case> k;
      for (auto& p : pts) for (int i : subj) for (int op : {0, 1, 3}) {
         // quick: the 80-bit argument itself only if it is a short number
         if (op == 0 && !c.thorough && !brief(p.a) && !brief(p.b)) continue;
         Case q; q.subj = i; q.p = p; q.op = op; k.push_back(q); }
      judge_all(c, judge22, k);
   }
}
Reg r22("C22", c22, judge22);
} // namespace
