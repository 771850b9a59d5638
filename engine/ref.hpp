// Reference model: polylogarithms, Clausen and Glaisher functions evaluated from their
// definitions (power series, expansion about z=1, inversion formula, lattice sums) in
// extended precision R (__float128 by default).  Written independently of /repo; shares
// no code, coefficients or region boundaries with it.  tools/validate_ref.py compares it
// against mpmath.
#pragma once
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <limits>
#include <vector>
#include "consts.inc"

namespace ref {

using Q = __float128;

inline Q r_log(Q x) { return logq(x); }
inline Q r_log1p(Q x) { return log1pq(x); }
inline Q r_exp(Q x) { return expq(x); }
inline Q r_expm1(Q x) { return expm1q(x); }
inline Q r_sin(Q x) { return sinq(x); }
inline Q r_cos(Q x) { return cosq(x); }
inline Q r_pow(Q x, Q y) { return powq(x, y); }
inline Q r_atan2(Q y, Q x) { return atan2q(y, x); }
inline Q r_hypot(Q y, Q x) { return hypotq(y, x); }
inline Q r_fabs(Q x) { return fabsq(x); }
inline Q r_floor(Q x) { return floorq(x); }
inline bool r_isfin(Q x) { return finiteq(x); }
inline Q r_eps(Q) { return FLT128_EPSILON; }
inline long double r_log(long double x) { return std::log(x); }
inline long double r_log1p(long double x) { return std::log1p(x); }
inline long double r_exp(long double x) { return std::exp(x); }
inline long double r_expm1(long double x) { return std::expm1(x); }
inline long double r_sin(long double x) { return std::sin(x); }
inline long double r_cos(long double x) { return std::cos(x); }
inline long double r_pow(long double x, long double y) { return std::pow(x, y); }
inline long double r_atan2(long double y, long double x) { return std::atan2(y, x); }
inline long double r_hypot(long double y, long double x) { return std::hypot(y, x); }
inline long double r_fabs(long double x) { return std::fabs(x); }
inline long double r_floor(long double x) { return std::floor(x); }
inline bool r_isfin(long double x) { return std::isfinite(x); }
inline long double r_eps(long double) { return std::numeric_limits<long double>::epsilon(); }

template <class R> struct C {
   R re, im;
   C(R a = 0, R b = 0) : re(a), im(b) {}
};
template <class R> inline C<R> operator+(C<R> a, C<R> b) { return C<R>(a.re + b.re, a.im + b.im); }
template <class R> inline C<R> operator-(C<R> a, C<R> b) { return C<R>(a.re - b.re, a.im - b.im); }
template <class R> inline C<R> operator-(C<R> a) { return C<R>(-a.re, -a.im); }
template <class R> inline C<R> operator*(C<R> a, C<R> b) { return C<R>(a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re); }
template <class R> inline C<R> operator*(R a, C<R> b) { return C<R>(a*b.re, a*b.im); }
template <class R> inline R l1(C<R> a) { return r_fabs(a.re) + r_fabs(a.im); }
template <class R> inline R cabs(C<R> a) { return r_hypot(a.re, a.im); }
template <class R> inline C<R> inv(C<R> a)
{
   // scaled division
   if (r_fabs(a.re) >= r_fabs(a.im)) {
      const R t = a.im/a.re, d = a.re + a.im*t;
      return C<R>(1/d, -t/d);
   }
   const R t = a.re/a.im, d = a.re*t + a.im;
   return C<R>(t/d, -1/d);
}
template <class R> inline C<R> ipow(C<R> a, int64_t n)
{
   C<R> r(1, 0);
   for (; n > 0; n >>= 1) { if (n & 1) r = r*a; a = a*a; }
   return r;
}

template <class R> inline R pi() { return static_cast<R>(REF_PI); }

/// ln|z|, accurate also for |z| ~ 1
template <class R> inline R logabs(C<R> z)
{
   R a = r_fabs(z.re), b = r_fabs(z.im);
   if (a < b) { const R t = a; a = b; b = t; }
   if (a == 0) return r_log(a);
   if (a > R(0.25) && a < R(4)) {
      return r_log1p((a - 1)*(a + 1) + b*b)/2;
   }
   const R t = b/a;
   return r_log(a) + r_log1p(t*t)/2;
}
template <class R> inline C<R> clog(C<R> z) { return C<R>(logabs(z), r_atan2(z.im, z.re)); }

/// log(1+z)
template <class R> inline C<R> clog1p(C<R> z)
{
   const R u = 1 + z.re;
   const R s = z.re*(2 + z.re) + z.im*z.im; // |1+z|^2 - 1
   const R re = (r_fabs(s) < R(0.5)) ? r_log1p(s)/2 : logabs(C<R>(u, z.im));
   return C<R>(re, r_atan2(z.im, u));
}

template <class R> R zeta_int(int64_t n)
{
   if (n >= REF_ZPOS_N) return 1 + r_pow(R(2), R(-n));
   if (n >= 0) return static_cast<R>(REF_ZPOS[n]);
   if (n % 2 == 0) return 0;
   return static_cast<R>(REF_ZNEG[(1 - n)/2 - 1]);
}

template <class R> R harmonic_small(int64_t n)
{
   R s = 0;
   for (int64_t k = n; k >= 1; --k) s += R(1)/k;
   return s;
}
template <class R> R harmonic_num(int64_t n)
{
   if (n <= 100) return harmonic_small<R>(n);
   // Euler-Maclaurin: H_n = ln n + g + 1/2n - sum B_2k/(2k n^2k)
   const R g = static_cast<R>(0.57721566490153286060651209008240243104216Q);
   const R x = R(1)/n, x2 = x*x;
   R s = 0, p = x2;
   for (int j = 1; j <= 12; ++j) { s -= static_cast<R>(-REF_ZNEG[j - 1])*p; p *= x2; } // B_2j/2j = -zeta(1-2j)
   return r_log(R(n)) + g + x/2 + s;
}

/// eta-like: Li_n(-1) = -(1-2^{1-n}) zeta(n)
template <class R> R polylog_m1(int64_t n)
{
   if (n == 1) return -r_log(R(2));
   return -(1 - r_pow(R(2), R(1 - n)))*zeta_int<R>(n);
}

/// power series, |z| < 1, any n
template <class R> C<R> power_series(int64_t n, C<R> z)
{
   C<R> p = z, s = z;
   for (int64_t k = 2; k < 2000; ++k) {
      p = p*z;
      R w;
      if (n >= 0 && n < 8) { w = R(1); const R rk = R(1)/k; for (int64_t i = 0; i < n; ++i) w *= rk; }
      else w = r_pow(R(k), R(-n));
      const C<R> t = w*p;
      s = s + t;
      if (l1(t) < l1(s)*r_eps(R())*R(0.01)) break;
      if (l1(t) == 0) break;
   }
   return s;
}

/// expansion in mu = ln z about z = 1, n >= 2, |mu| < 2 pi
template <class R> C<R> unity_series(int64_t n, C<R> mu, C<R> log_minus_mu)
{
   C<R> s(zeta_int<R>(n), 0), p(1, 0);
   int small = 0;
   for (int64_t k = 1; k < 2*REF_ZNEG_N; ++k) {
      p = (R(1)/k)*(p*mu);
      C<R> t;
      if (k == n - 1) {
         t = (C<R>(harmonic_num<R>(n - 1), 0) - log_minus_mu)*p;
      } else {
         const int64_t m = n - k;
         if (m < 0 && m % 2 == 0) continue;
         t = zeta_int<R>(m)*p;
      }
      s = s + t;
      if (k > n + 2 || k > 60) {
         if (l1(t) <= l1(s)*r_eps(R())*R(0.001)) { if (++small > 2) break; }
         else small = 0;
      }
   }
   return s;
}

template <class R> inline R r_lgamma(R x);
template <> inline Q r_lgamma(Q x) { return lgammaq(x); }
template <> inline long double r_lgamma(long double x) { int sg; return lgammal_r(x, &sg); }

/// Li_{-m}(z), m >= 0.  *err receives an estimate of the error relative to
/// max(|Li_{-m}(z)|, m!/|ln z|^{m+1}).
template <class R> C<R> polylog_neg(int64_t m, C<R> z, R* err)
{
   *err = r_eps(R());
   if (m == 0) { // z/(1-z)
      const C<R> omz(1 - z.re, -z.im);
      return z*inv(omz);
   }
   const R az = cabs(z);
   if (z.im == 0 && z.re == -1) return C<R>(polylog_m1<R>(-m), 0);
   if (az > R(1.12)) {
      C<R> r = polylog_neg(m, inv(z), err); // Li_{-m}(1/z) = (-1)^{m+1} Li_{-m}(z)
      return m % 2 == 0 ? -r : r;
   }
   const C<R> mu = clog(z);
   const R accept = 400*r_eps(R())*(R(m) + 4);
   const R lamp = r_lgamma(R(m + 1)) - R(m + 1)*r_log(cabs(mu));
   const R amp = lamp < R(-11000) ? R(0) : lamp > R(11000) ? r_exp(R(11000)) : r_exp(lamp);
   C<R> best(0, 0);
   R best_err = R(1e30);
   auto consider = [&](C<R> v, R abs_err) {
      const R a = cabs(v);
      const R e = abs_err/(a > amp ? a : amp);
      if (e < best_err) { best = v; best_err = e; }
      return best_err <= accept;
   };
   auto series = [&] { // power series; terms k^m z^k
      if (!(az < R(0.9))) return false;
      C<R> p = z, s = z;
      R mx = l1(z);
      bool ok = false;
      for (int64_t k = 2; k < 4000; ++k) {
         p = p*z;
         const C<R> t = r_pow(R(k), R(m))*p;
         s = s + t;
         const R a = l1(t);
         if (a > mx) mx = a;
         else if (a < l1(s)*r_eps(R())*R(0.01) || a < amp*r_eps(R())*R(1e-4) || a == 0) { ok = true; break; }
      }
      return ok && consider(s, mx*r_eps(R())*8*(R(m) + 4));
   };
   auto eulerian = [&] { // z A_m(z)/(1-z)^{m+1}
      if (m > 60) return false;
      static thread_local std::vector<std::vector<R>> A;
      if (A.empty()) {
         A.resize(61);
         A[0] = {R(1)};
         for (int mm = 1; mm <= 60; ++mm) {
            A[mm].assign(mm, 0);
            for (int k = 0; k < mm; ++k) {
               R v = 0;
               if (mm == 1) v = 1;
               else {
                  if (k < mm - 1) v += R(k + 1)*A[mm - 1][k];
                  if (k >= 1) v += R(mm - k)*A[mm - 1][k - 1];
               }
               A[mm][k] = v;
            }
         }
      }
      C<R> s(0, 0);
      R as = 0;
      for (int k = static_cast<int>(m) - 1; k >= 0; --k) {
         s = s*z + C<R>(A[m][k], 0);
         as = as*az + A[m][k];
      }
      const C<R> omz(1 - z.re, -z.im);
      const C<R> pre = z*ipow(inv(omz), m + 1);
      return consider(pre*s, cabs(pre)*as*r_eps(R())*(4*R(m) + 8));
   };
   auto lattice = [&] { // m! sum_k (2 pi i k - mu)^{-(m+1)}
      if (m < 10) return false;
      const C<R> b0(-mu.re, -mu.im);
      const C<R> ib0 = inv(b0);
      // the powers relative to the k=0 term: (b0/bk)^{m+1}
      C<R> s(1, 0);
      R as = 1, last = 1;
      for (int64_t k = 1; k < 20000; ++k) {
         const C<R> r1 = ipow(b0*inv(C<R>(b0.re, b0.im + 2*pi<R>()*k)), m + 1);
         const C<R> r2 = ipow(b0*inv(C<R>(b0.re, b0.im - 2*pi<R>()*k)), m + 1);
         s = s + r1 + r2;
         last = l1(r1) + l1(r2);
         as += last;
         if (last*k < r_eps(R())) break;
      }
      // m! * ib0^{m+1}: interleave to avoid overflow
      C<R> f = ib0;
      for (int64_t j = 1; j <= m; ++j) f = R(j)*(f*ib0);
      return consider(s*f, cabs(f)*(as*r_eps(R())*(8*R(m) + 8) + last));
   };
   bool done;
   if (m < 10) done = eulerian() || series();
   else if (az < R(0.1)) done = series() || lattice() || eulerian();
   else done = lattice() || series() || eulerian();
   (void)done;
   *err = best_err;
   return best;
}

/// Li_n(z), any n.  Points on the cut (Im z = 0, Re z > 1, n >= 1) are assigned the value
/// from below (Im = -pi ln^{n-1}(z)/(n-1)!), which is the library's documented convention.
template <class R> C<R> polylog(int64_t n, C<R> z, R* err = nullptr)
{
   if (err) *err = 4*r_eps(R());
   if (z.re == 0 && z.im == 0) return z;
   if (n <= 0) {
      R e;
      C<R> r = polylog_neg(-n, z, &e);
      if (err) *err = e;
      return r;
   }
   const bool cut = z.im == 0 && z.re > 1;
   if (n == 1) {
      C<R> r = -clog1p(-z);
      if (cut) r.im = -pi<R>();
      return r;
   }
   if (z.re == 1 && z.im == 0) return C<R>(zeta_int<R>(n), 0);
   const R az = cabs(z);
   C<R> r;
   if (az <= R(0.5)) {
      r = power_series(n, z);
   } else if (az >= R(2)) {
      C<R> l(logabs(z), 0); // log(-z), Im in (-pi, pi]
      if (z.im == 0) l.im = cut ? pi<R>() : R(0);
      else l.im = r_atan2(-z.im, -z.re);
      r = power_series(n, inv(z));
      if (n % 2 == 0) r = -r;
      // 2 sum_{k=1}^{n/2} neg_eta(2k) l^{n-2k}/(n-2k)! - l^n/n!; highest powers last
      // evaluated upwards: e_j = l^j/j!
      const int64_t nmax = n;
      C<R> e(1, 0), s(0, 0);
      for (int64_t j = 0; j <= nmax; ++j) {
         if (j > 0) e = (R(1)/j)*(e*l);
         if ((n - j) % 2 == 0) {
            const int64_t k2 = n - j;
            if (k2 == 0) s = s - e;
            else s = s + (2*polylog_m1<R>(k2))*e;
         }
         if (j > 20 && R(j) > 4*l1(l) && l1(e) < l1(s)*r_eps(R())*R(1e-4)) break;
      }
      r = r + s;
   } else {
      C<R> mu = clog(z);
      C<R> nmu = -mu;
      C<R> lm;
      if (mu.im == 0) lm = C<R>(r_log(r_fabs(mu.re)), mu.re > 0 ? pi<R>() : R(0));
      else lm = C<R>(logabs(nmu), r_atan2(nmu.im, nmu.re));
      r = unity_series(n, mu, lm);
   }
   if (z.im == 0) {
      if (!cut) r.im = 0;
      else {
         const R l = r_log(z.re);
         R v = -pi<R>();
         for (int64_t j = 1; j <= n - 1; ++j) { v *= l/j; if (v == 0) break; }
         r.im = v;
      }
   }
   return r;
}

/// x mod 2 pi in (-pi, pi]; *k receives the number of periods removed
template <class R> R reduce_angle(R x, R* k = nullptr)
{
   const R p2 = 2*pi<R>();
   const R kk = r_floor(x/p2 + R(0.5));
   if (k) *k = kk;
   return x - kk*p2;
}

/// Li_n(e^{ix}), n >= 1, x already in [-pi, pi]
template <class R> C<R> polylog_circle(int64_t n, R x)
{
   if (n == 1) {
      const R s = 2*r_sin(r_fabs(x)/2);
      R im = (pi<R>() - r_fabs(x))/2;
      if (x < 0) im = -im;
      if (x == 0) im = 0;
      return C<R>(-r_log(s), im);
   }
   if (x == 0) return C<R>(zeta_int<R>(n), 0);
   const R a = r_fabs(x);
   C<R> mu(0, a);
   C<R> lm(r_log(a), -pi<R>()/2);
   C<R> r = unity_series(n, mu, lm);
   if (x < 0) r.im = -r.im;
   return r;
}
template <class R> R clausen(int64_t n, R x) { const C<R> r = polylog_circle<R>(n, x); return n % 2 == 0 ? r.im : r.re; }
template <class R> R glaisher(int64_t n, R x) { const C<R> r = polylog_circle<R>(n, x); return n % 2 == 0 ? r.re : r.im; }

} // namespace ref
