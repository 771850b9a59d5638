# Planted bugs: (file, old text, new text) against /repo's HEAD, with a demonstration each.
PRELUDE = r'''// demonstration of a planted bug: exit 0 if the property holds
#include "Li.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Cl.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Sl.hpp"
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <thread>
#include <unistd.h>
using namespace polylogarithm;
typedef std::complex<double> cd;
typedef std::complex<float> cf;
typedef std::complex<long double> cl;
extern "C" {
double cl3(double);
__complex__ double cli6(__complex__ double);
__complex__ double cdli4_(__complex__ double*);
double dli3_(double*);
}
static int check(const char* what, long double got, long double want, long double eps) {
   const bool ok = std::isinf(want) ? got == want
      : std::abs(got - want) <= eps*std::abs(want);
   std::printf("%s: %.20Lg, expected %.20Lg%s\n", what, got, want, ok ? "" : "  WRONG");
   return ok ? 0 : 1;
}
'''
BUGS = []
def bug(**k): BUGS.append(k)

bug(id="cl-kmax-static-cache", property="C19",
    edits=[("src/cpp/Cl.cpp", "   const auto kmax = static_cast<int64_t>(std::ceil(std::pow(eps, -1.0/n)));\n",
"""   // the number of terms depends on n only
   static int64_t n_last = 0, kmax_last = 0;
   if (n != n_last) {
      n_last = n;
      kmax_last = static_cast<int64_t>(std::ceil(std::pow(eps, -1.0/n)));
   }
   const auto kmax = kmax_last;
""")],
    needs="two threads calling Cl(n,x) with different n > 9, one preempted between the two assignments of the cache",
    breaks="Cl(n,x) returns a series truncated for another order: result depends on other threads",
    demo=r'''
int main() {
   std::atomic<int> bad(0);
   auto work = [&](int a, int b) {
      const double ra = Cl(a, 1.25), rb = Cl(b, 1.25);
      for (int i = 0; i < 4000000 && !bad; ++i) {
         if (std::abs(Cl(a, 1.25) - ra) > 1e-14 || std::abs(Cl(b, 1.25) - rb) > 1e-14) bad = 1;
      }
   };
   // reference values
   if (std::abs(Cl(10, 1.25) - 0.949567487738) > 1e-2) return 2;
   std::thread t1(work, 10, 1000), t2(work, 10, 1000), t3(work, 11, 800), t4(work, 10, 100);
   t1.join(); t2.join(); t3.join(); t4.join();
   if (bad) std::puts("a thread got a different value for the same arguments");
   return bad;
}
''')

bug(id="sl-memo-float-key", property="C19",
    edits=[("src/cpp/Sl.cpp", "   return sgn*sl_series(n, x);\n",
"""   // remember the last value, angles are often scanned for several signs
   static thread_local int64_t last_n = 0;
   static thread_local float last_x = 0;
   static thread_local double last_sl = 0;

   if (n != last_n || std::abs(last_x - static_cast<float>(x)) > 0.0f) {
      last_n = n;
      last_x = static_cast<float>(x);
      last_sl = sl_series(n, x);
   }

   return sgn*last_sl;
""")],
    needs="two consecutive calls Sl(n,x), Sl(n,y) with n > 25 and x, y equal in single precision but not in double",
    breaks="Sl(n,y) returns the value of the previous call",
    demo=r'''
int main() {
   const double x = 1.5, y = 1.5*(1 + 1e-8);
   const double fresh = Sl(27, y);
   Sl(27, x); Sl(28, 0.5);
   Sl(27, x);
   return check("Sl(27,y) after Sl(27,x)", Sl(27, y), fresh, 1e-14) +
          check("Sl(27,y)", fresh, std::sin(y) + std::sin(2*y)*std::pow(2.0,-27), 1e-11);
}
''')

bug(id="zeta-table-digit", property="C20",
    edits=[("src/cpp/zeta.cpp", "1.0000076371976379", "1.0000076317976379")],
    needs="the order 17, which no test evaluates",
    breaks="zeta(17), i.e. Li(17,1), is wrong in the 9th digit (transposed digits)",
    demo=r'''
int main() { return check("Li(17,1)", Li(17, 1.0).real(), 1.0000076371976378998L, 1e-14); }
''')

bug(id="zeta-large-order-one", property="C20",
    edits=[("src/cpp/zeta.cpp", "   return 1.0/(1.0 - std::pow(0.5, n));", "   return n < 37 ? 1.0/(1.0 - std::pow(0.5, n)) : 1.0;")],
    needs="orders 37..52, between the tabulated ones and those where zeta(n) rounds to 1",
    breaks="zeta(n) is 1 where it differs from 1 by up to 7e-12",
    demo=r'''
int main() { return check("Li(38,1)", Li(38, 1.0).real(), 1.00000000000363797954737865119L, 1e-15L) +
   check("Li(37,1)", Li(37, 1.0).real(), 1.00000000000727595983505748101L, 1e-15L); }
''')

bug(id="eta-int-index", property="C18",
    edits=[("src/cpp/eta.cpp", """      if (is_even(n)) {
         return 0.0;
      } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
         return NEG_ETA_NEG_N[-(1 + n)/2];""",
"""      constexpr int N = sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]);
      const int i = -(1 + n)/2; // index into table
      if (is_even(n)) {
         return 0.0;
      } else if (i < N) {
         return NEG_ETA_NEG_N[i];""")],
    needs="an odd order n < -2^32",
    breaks="the table index is truncated to 32 bits: the table is read out of bounds",
    demo=r'''
int main() { return check("Li(-2^32-1,-1)", std::abs(Li(-4294967297LL, -1.0).real()), std::numeric_limits<double>::infinity(), 0); }
''')

bug(id="cli2l-double-epsilon", property="C02",
    edits=[("src/cpp/Li2.cpp", "std::numeric_limits<long double>::epsilon()", "std::numeric_limits<double>::epsilon()")],
    needs="long double complex Li2 with 3e-10 < |z| < 1.5e-8",
    breaks="the two-term expansion is used where the z^2/9 term exceeds the long double precision",
    demo=r'''
int main() {
   const cl z(1.2e-8L, 0.5e-8L);
   const cl want = z*(1.0L + z*(0.25L + z/9.0L));
   const cl got = Li2(z);
   return std::abs(got - want) <= 1e-18L*std::abs(want) ? 0 : 1;
}
''')

bug(id="li-series-large-n", property="C05",
    edits=[("src/cpp/Li.cpp", "   } else if (std::norm(z) <= 0.75*0.75) {", "   } else if (std::norm(z) <= 0.75*0.75 || n >= 60) { // fast convergence")],
    needs="order n >= 60 and |z| large enough for z^k/k^n to grow (tests use n=100 with |z| < 8 only)",
    breaks="Li(n,z) uses the power series far outside its radius of convergence",
    demo=r'''
int main() {
   // Li(60, 1e30) from the inversion formula with eta values (~1): -2 sum_k eta(2k) L^(60-2k)/(60-2k)! - L^60/60!
   const long double L = std::log(1e30L);
   long double s = 0, f = 1; // f = L^j/j!
   for (int j = 0; j <= 60; j += 2) {
      if (j) f *= L*L/((j - 1.0L)*j);
      const int k2 = 60 - j;
      long double eta = 0.5L;
      if (k2 > 0) { eta = 0; for (int m = 400; m > 0; --m) eta += (m % 2 ? 1 : -1)*std::pow((long double)m, -(long double)k2);
         if (k2 == 2) eta = 0.822467033424113218236207583323012594609L; }
      s -= 2*eta*f;
   }
   return check("Re Li(60,-1e30)", Li(60, cd(-1e30, 0)).real(), s, 1e-6L);
}
''')

bug(id="cl-series-one-term", property="C08",
    edits=[("src/cpp/Cl.cpp", "   return sgn*cl_series(n, x);\n", "   if (n > 36) { // higher terms are negligible\n      return sgn*(is_even(n) ? std::sin(x) : std::cos(x));\n   }\n\n   return sgn*cl_series(n, x);\n")],
    needs="orders 37..52 (tests: up to 16 and 1000)",
    breaks="Cl(n,x) = sin(x) or cos(x) although the second term is up to 7e-12",
    demo=r'''
int main() {
   return check("Cl(38,1)", Cl(38, 1.0), std::sin(1.0L) + std::sin(2.0L)*std::pow(0.5L, 38) + std::sin(3.0L)*std::pow(3.0L, -38), 2e-15L);
}
''')

bug(id="sl-odd-two-pi", property="C09",
    edits=[("src/cpp/Sl.cpp", """   if (x > PI) {
      const auto p0 = 6.28125;
      const auto p1 = 0.0019353071795864769253;
      x = (p0 - x) + p1;
      sgn = -sgn;
   }
""", """   if (x > PI) {
      x = 2*PI - x;
      sgn = -sgn;
   }
""")],
    needs="odd order and an angle just below 2 pi (relative accuracy near the zero)",
    breaks="the reduced angle is inaccurate: relative error of Sl(n,x) near 2 pi is large",
    demo=r'''
int main() {
   const double x = std::nextafter(std::nextafter(2*3.14159265358979324, 0), 0);
   const long double y = 6.283185307179586476925286766559L - (long double)x; // Sl3(x) ~ -zeta(2) y
   return check("Sl(3,2pi-)", Sl(3, x), -1.644934066848226436472415166646L*y, 1e-12L);
}
''')

bug(id="li4-real-zero-sign", property="C11",
    edits=[("src/cpp/Li4.cpp", "         return { Li4(rz), iz };", "         return { Li4(rz), rz == 0.0 ? iz : 0.0 };")],
    needs="real z <= 1, z != 0 with imaginary part -0.0",
    breaks="the sign of the zero imaginary part is lost",
    demo=r'''
int main() { return std::signbit(Li4(cd(0.5, -0.0)).imag()) ? 0 : 1; }
''')

bug(id="li2f-subnormal-cut", property="C12",
    edits=[("src/cpp/Li2.cpp", """   const float iz = std::imag(z);

   // special cases
   if (iz == 0) {""", """   const float iz = std::imag(z);

   // special cases
   if (std::abs(iz) < std::numeric_limits<float>::min()) {""")],
    needs="single precision z > 1 with subnormal positive imaginary part",
    breaks="the value from the wrong side of the branch cut is returned",
    demo=r'''
int main() { const float im = Li2(cf(2.0f, 1e-40f)).imag(); std::printf("%g\n", im); return im > 0 ? 0 : 1; }
''')

bug(id="cli6-arg-tolerance", property="C13",
    edits=[("src/c/Li6.c", """      const double arg = pz > 0.0 ? pz - PI : pz + PI;""",
"""      const double arg = pz >= DBL_MIN ? pz - PI : pz + PI;"""),
           ("src/c/Li6.c", "#include <math.h>\n", "#include <float.h>\n#include <math.h>\n")],
    needs="C Li6 with Re(z) > e and subnormal arg(z) > 0",
    breaks="points just above the branch cut give the value below it: conj(Li6(z)) != Li6(conj z)",
    demo=r'''
int main() {
   __complex__ double z; __real__ z = 10.0; __imag__ z = 1e-310;
   const __complex__ double a = cli6(z);
   __imag__ z = -1e-310;
   const __complex__ double b = cli6(z);
   return check("Im Li6(10+i0)", __imag__ a, -__imag__ b, 1e-14);
}
''')

bug(id="fortran-li4-at-one", property="C11",
    edits=[("src/fortran/Li4.f90", "      if (rz .le. 1) then\n", "      if (rz .lt. 1) then\n")],
    needs="Fortran cdli4 at z = 1 + 0i",
    breaks="the imaginary part of Li4(1) is -0 for z = 1 + 0i",
    demo=r'''
int main() {
   __complex__ double z; __real__ z = 1.0; __imag__ z = 0.0;
   return std::signbit(__imag__ cdli4_(&z)) ? 1 : 0;
}
''')

bug(id="li-nan-check-and", property="C18",
    edits=[("src/cpp/Li.cpp", "   if (std::isnan(std::real(z)) || std::isnan(std::imag(z))) {", "   if (std::isnan(std::real(z)) && std::isnan(std::imag(z))) {")],
    needs="order n > 6 and NaN in one component of z only",
    breaks="the series around z = 1 never terminates as NaN is not equal to itself",
    demo=r'''
int main() { alarm(10); const cd l = Li(8, cd(0.5, std::numeric_limits<double>::quiet_NaN())); return std::isnan(l.real()) ? 0 : 1; }
''')

bug(id="li-unity-neg-overflow-term", property="C06",
    edits=[("src/cpp/Li.cpp", "         if (!is_finite(term)) { break; }\n", "")],
    needs="order around -130...-170 and z close to 1 on the scale of the overflow of zeta(n-k)",
    breaks="an overflowing term of the series makes the result infinite or NaN",
    demo=r'''
int main() { // Li(-130, 2) (z real): compare with inversion symmetry Li(-130,z) = -Li(-130,1/z)
   int bad = 0;
   for (int n = -170; n <= -120; ++n) {
      const cd a = Li(n, cd(1.25, 0.5));
      if (std::isnan(a.real()) || std::isnan(a.imag())) { std::printf("n=%d NaN\n", n); bad = 1; }
   }
   return bad;
}
''')

bug(id="c-cl3-floor", property="C14",
    edits=[("src/c/Cl3.c", """   if (x >= PI2) {
      x = fmod(x, PI2);
   }

   if (x > PI) {
      const double p0 = 6.28125;""", """   if (x >= PI2) {
      x = x - PI2*floor(x/PI2);
   }

   if (x > PI) {
      const double p0 = 6.28125;""")],
    needs="C cl3 with large angles",
    breaks="the C function differs from the C++ and Fortran ones by the rounding error of the product",
    demo=r'''
int main() { double x = 1e12 + 0.5; return check("cl3 vs Cl3", cl3(x), Cl3(x), 1e-13); }
''')

bug(id="clog1p-real-part", property="C02",
    edits=[("src/cpp/log.hpp", "   } else if (std::real(u) <= T(0)) {\n      return std::log(u);\n   }", "   } else if (std::real(u) <= T(0.5) || std::abs(std::imag(z)) < std::numeric_limits<T>::epsilon()*std::abs(std::real(z))) {\n      return std::log(u);\n   }")],
    needs="complex z with 0 < |Im z| < eps |Re z| and small |Re z|",
    breaks="log(1+z) loses all relative accuracy for small z next to the real axis",
    demo=r"""
int main() {
   const cd z(1e-6, 1e-23);
   return check("Re Li2", Li2(z).real(), 1e-6L*(1 + 1e-6L/4 + 1e-12L/9), 1e-14L)
      + check("Im Li2", Li2(z).imag(), 1e-23L*(1 + 0.5e-6L), 1e-9L);
}
""")


bug(id="li0-cancellation", property="C06",
    edits=[("src/cpp/Li.cpp", "      return z/(1.0 - z);", "      return -1.0 + 1.0/(1.0 - z);")],
    needs="order 0 and small |z| (relative accuracy)",
    breaks="cancellation: Li(0,z) has no correct digit for |z| < 1e-16",
    demo=r"""
int main() { return check("Li(0,1e-12)", Li(0, cd(1e-12, 0)).real(), 1e-12L/(1 - 1e-12L), 1e-14L); }
""")

bug(id="li4-asymptotic", property="C03",
    edits=[("src/cpp/Li4.cpp", """      const double l = std::log(x);
      const double l2 = l*l;
      x = 1/x;
      rest = 2*zeta4 + l2*(zeta2 - 1.0/24*l2);
      sgn = -1;
""", """      const double l = std::log(x);
      const double l2 = l*l;
      rest = 2*zeta4 + l2*(zeta2 - 1.0/24*l2);
      if (x > 1e6) { return rest; } // Li_4(1/x) is negligible
      x = 1/x;
      sgn = -1;
""")],
    needs="real x between 1e6 and about 1e13 (tests: |x| <= 5)",
    breaks="Li4(1/x) is dropped although it is not negligible",
    demo=r"""
int main() { return check("Li4(2e6)", Li4(2e6), Li4(cl(2e6L, 0.0L)).real(), 1e-14L); }
""")

bug(id="li3-asymptotic-jump", property="C21",
    edits=[("src/cpp/Li3.cpp", "      return li3_pos(1/x) + l*(2*zeta2 - 1.0/6*l*l);", "      return (x > 1e4 ? 1/x : li3_pos(1/x)) + l*(2*zeta2 - 1.0/6*l*l);")],
    needs="real x slightly above 1e4",
    breaks="Li3 jumps at x = 1e4 by 1/(8 x^2)",
    demo=r"""
int main() {
   const double x = 1e4, x1 = std::nextafter(x, 2*x);
   return std::abs(Li3(x1) - Li3(x)) < 3e-13 ? 0 : 1;
}
""")

bug(id="li6-large-modulus", property="C04",
    edits=[("src/cpp/Li6.cpp", """      const std::complex<double> lmz(lnz, arg); // log(-z)
      const auto lmz2 = lmz*lmz;
      u = -log1p(-1.0/z);
""", """      const std::complex<double> lmz(lnz, arg); // log(-z)
      const auto lmz2 = lmz*lmz;
      u = nz < 1e3 ? -log1p(-1.0/z) : 1.0/z;
""")],
    needs="complex z with |z| between 1e3 and 1e6 (tests: components up to 5, and 1e300)",
    breaks="log(1 - 1/z) is replaced by its leading term too early",
    demo=r"""
int main() {
   const cl want = Li6(cl(1200, 300)); const cd got = Li6(cd(1200, 300));
   return check("Re", got.real(), want.real(), 1e-13L) + check("Im", got.imag(), want.imag(), 1e-13L);
}
""")

bug(id="li-order-int32", property="C05",
    edits=[("src/cpp/Li.cpp", "   } else if (n == 3) {\n", "   } else if (static_cast<int32_t>(n) == 3) {\n")],
    needs="an order n = 3 modulo 2^32",
    breaks="Li(2^32+3,z) returns Li3(z) instead of z",
    demo=r"""
int main() { return check("Li(2^32+3,0.5)", Li(4294967299LL, cd(0.5, 0)).real(), 0.5L, 1e-15L); }
""")

bug(id="li-inf-and", property="C17",
    edits=[("src/cpp/Li.cpp", "   } else if (std::isinf(std::real(z)) || std::isinf(std::imag(z))) {", "   } else if (std::isinf(std::abs(z))) {")],
    needs="finite z with overflowing modulus",
    breaks="Li(n,z) is -inf for large finite arguments",
    demo=r"""
int main() { return std::isfinite(Li(3, cd(1.5e308, -1.5e308)).real()) ? 0 : 1; }
""")

bug(id="li2-large-modulus", property="C16",
    edits=[("src/cpp/Li2.cpp", """   const double nz = std::norm(z);

   if (nz < std::numeric_limits<double>::epsilon()) {
      return z*(1.0 + 0.25*z);
   }
""", """   const double nz = std::norm(z);

   if (nz < std::numeric_limits<double>::epsilon()) {
      return z*(1.0 + 0.25*z);
   }

   if (nz > 1e8) { // leading terms of the expansion for large |z|
      const auto lz = std::log(-z);
      return -0.5*lz*lz - PI*PI/6 - 1.0/z/1.0;
   }
""".replace("/1.0;", ";")), ("src/cpp/Li2.cpp", "      + 1.0/36.0,\n      - 1.0/3600.0,", "      + 1.0/36.0, - 1.0/3600.0,")],
    needs="complex z with 1e4 < |z| < 1e8",
    breaks="the terms of order 1/z^2 are missing: the inversion formula is violated",
    demo=r"""
int main() {
   const cd z(3e3, 1.2e4);
   const cl want = Li2(cl(3e3L, 1.2e4L)); const cd got = Li2(z);
   return check("Re", got.real(), want.real(), 1e-12L) + check("Im", got.imag(), want.imag(), 1e-12L);
}
""")

bug(id="li2-real-large", property="C01",
    edits=[("src/cpp/Li2.cpp", """      const double l = std::log(1 - x);
      y = 1/(1 - x);
      r = -PI*PI/6 + l*(0.5*l - std::log(-x));""", """      const double l = std::log(1 - x);
      y = 1/(1 - x);
      r = -PI*PI/6 + (x > -1e3 ? l*(0.5*l - std::log(-x)) : -0.5*l*l);""")],
    needs="real x between -1e3 and -1e15",
    breaks="log(1-x) and log(-x) are identified too early",
    demo=r"""
int main() { return check("Li2(-2000)", Li2(-2000.0), Li2(-2000.0L), 1e-14L); }
""")

bug(id="cl-order-one-cosine", property="C15",
    edits=[("src/cpp/Cl.cpp", "      return Cl1(x);", "      return std::abs(x) < 1e-3 ? Cl1(x) : -0.5*std::log(2 - 2*std::cos(x));")],
    needs="order 1 and angles within about 0.01 of a multiple of 2 pi, but not next to 0",
    breaks="cancellation: Cl(1,x) differs from Cl1(x)",
    demo=r"""
extern double Cl1_(double);
int main() {
   double s = 0;
   for (double x = 1.1e-3; x < 1.2e-3; x += 1e-6)
      s = std::max(s, std::abs(Cl(1, x) + std::log(2*std::sin(x/2))));
   std::printf("%g\n", s);
   return s < 1e-13 ? 0 : 1;
}
""")

bug(id="cl6-int-turns", property="C10",
    edits=[("src/cpp/Cl6.cpp", """   if (x >= PI2) {
      x = std::fmod(x, PI2);
   }

   if (x > PI) {
      const double p0""", """   if (x >= PI2) {
      x -= PI2*static_cast<int>(x/PI2);
   }

   if (x > PI) {
      const double p0""")],
    needs="|x| > 2^31 2 pi (and, in the last digits, smaller angles)",
    breaks="the number of turns overflows int: Cl6 is not periodic and not bounded",
    demo=r"""
int main() { return check("Cl6(1e11)", Cl6(1e11), Cl6(std::fmod(1e11, 2*3.14159265358979324)), 1e-4L); }
""")

bug(id="cl6l-range-constant", property="C07",
    edits=[("src/cpp/Cl6.cpp", "      const long double p1 = 0.0019353071795864769252867665590057683943L;", "      const double p1 = 0.0019353071795864769253;")],
    needs="long double Cl6 next to its zero at 2 pi, where the reduced angle matters in relative terms",
    breaks="the long double range reduction constant has double precision only",
    demo=r"""
int main() {
   // x = 2 pi - y
   const long double x = 6.283185L;
   const long double p0 = 6.28125L, p1 = 0.0019353071795864769252867665590057683943L;
   const long double y = (p0 - x) + p1;
   return check("Cl6l(x)", Cl6(x), -Cl6(y), 1e-17L);
}
""")

# ---- second batch ------------------------------------------------------------------------------
bug(id="li2l-pade-range", property="C01",
    edits=[("src/cpp/Li2.cpp", "   } else if (x < 0.5L) {", "   } else if (x < 0.59L) {")],
    needs="0.5 < x < 0.59 in long double precision",
    breaks="the Pade approximation is used outside of its interval",
    demo=r"""
int main() { const long double x = 0.588L; long double s = 0, p = 1; for (int k = 1; k < 200; ++k) { p *= x; s += p/k/k; } return check("Li2l(0.588)", Li2(x), s, 1.1e-17L); }
""")

bug(id="li3-half-special", property="C21",
    edits=[("src/cpp/Li3.cpp", "   } else if (x == 0.5) {", "   } else if (std::abs(x - 0.5) < 1e-9) {")],
    needs="x within 1e-9 of, but not equal to 1/2",
    breaks="Li3 is constant next to 1/2 and jumps at 1/2 - 1e-9",
    demo=r"""
int main() { const double a = 0.5 - 2e-9, b = 0.5 - 0.99e-9, c = 0.5 + 0.99e-9;
  return check("slope", (Li3(c) - Li3(b))/(c - b), (Li3(b) - Li3(a))/(b - a), 1e-3L); }
""")

bug(id="sl-single-turn", property="C10",
    edits=[("src/cpp/Sl.cpp", """   if (x < 0) {
      x = -x;
      sgn = -1;
   }

   if (x >= 2*PI) {
      x = std::fmod(x, 2*PI);
   }
""", """   if (x < 0) {
      x = -x;
      sgn = -1;
   }

   if (x >= 2*PI) {
      x -= 2*PI;
   }
""")],
    needs="odd order and |x| >= 4 pi",
    breaks="Sl(n,x) is not periodic beyond the second turn",
    demo=r"""
int main() { const double x = 20.0; return check("Sl(3,20)", Sl(3, x), Sl(3, x - 6*3.14159265358979324), 1e-12L); }
""")

bug(id="cl4l-fmod-double", property="C14",
    edits=[("src/c/Cl4.c", "      x = fmodl(x, PI2);", "      x = fmod(x, PI2);")],
    needs="long double cl4l in C beyond the first period",
    breaks="the range reduction of cl4l is done in double precision: C and C++ differ",
    demo=r"""
extern "C" long double cl4l(long double);
int main() { const long double x = 12.3456789L; return check("cl4l(x)", cl4l(x), Cl4(x), 1e-17L); }
""")

bug(id="li2-small-threshold", property="C02",
    edits=[("src/cpp/Li2.cpp", """   if (nz < std::numeric_limits<double>::epsilon()) {
      return z*(1.0 + 0.25*z);""", """   if (nz < std::pow(std::numeric_limits<double>::epsilon(), 0.75)) {
      return z*(1.0 + 0.25*z);""")],
    needs="1e-7 < |z| < 1e-6",
    breaks="two terms of the series are used where three are needed",
    demo=r"""
int main() { const cd z(1.2e-6, 5e-8); const cl w(z); const cl r = w*(1.0L + w*(0.25L + w*(1/9.0L + w*(1/16.0L + w/25.0L))));
  return check("Re", Li2(z).real(), r.real(), 5e-14L); }
""")

bug(id="eta-neg-digit", property="C20",
    edits=[("src/cpp/eta.cpp", "-1.1935494277949469e277", "-1.1935494377949469e277")],
    needs="neg_eta(-177)",
    breaks="a table entry is wrong in the ninth digit",
    demo=r"""
#include "eta.hpp"
#include "zeta.hpp"
int main() { int bad = 0; for (int n = -3; n > -215; n -= 2) bad |= check("eta", neg_eta(n), -(1 - std::exp2(1.0L - n))*zeta(n), 1e-13L); return bad; }
""")

bug(id="zeta-lazy-table", property="C19",
    edits=[("src/cpp/zeta.cpp", "   return 1.0/(1.0 - std::pow(0.5, n));", """   // values for moderate orders are computed once
   static bool filled = false;
   static double table[64];

   if (n < 64) {
      if (!filled) {
         filled = true;
         for (int k = 34; k < 64; ++k) {
            table[k] = 1.0/(1.0 - std::pow(0.5, k));
         }
      }
      return table[n];
   }

   return 1.0/(1.0 - std::pow(0.5, n));""")],
    needs="two threads making the first call with an order between 34 and 63, one preempted while it fills the table",
    breaks="the other thread reads a zero",
    demo=r"""
#include "zeta.hpp"
#include <sys/wait.h>
int main() {
   // many processes, so that there are many first calls
   for (int r = 0; r < 4000; ++r) {
      const pid_t p = fork();
      if (p == 0) {
         std::atomic<int> go(0), bad(0);
         auto work = [&] { ++go; while (go < 2) {} if (!(Li(63, cd(1.0, 0.0)).real() >= 1.0)) bad = 1; };
         std::thread a(work), b(work); a.join(); b.join();
         _exit(bad);
      }
      int st = 0; waitpid(p, &st, 0);
      if (st) { std::printf("wrong result in process %d\n", r); return 1; }
   }
   return 0;
}
""")

bug(id="cli4-subnormal-axis", property="C12",
    edits=[("src/c/Li4.c", """   const double rz  = creal(z);
   const double iz  = cimag(z);

   if (iz == 0) {""", """   const double rz  = creal(z);
   const double iz  = cimag(z);

   if (fabs(iz) < 1e-100) {""")],
    needs="cli4 in C above the cut at a distance below 1e-100",
    breaks="the value above the cut is that below the cut",
    demo=r"""
extern "C" __complex__ double cli4(__complex__ double);
int main() { __complex__ double z; __real__ z = 2.5; __imag__ z = 1e-120; return __imag__ cli4(z) > 0 ? 0 : 1; }
""")

bug(id="li-unity-radius", property="C05",
    edits=[("src/cpp/Li.cpp", "   } else if (std::norm(z) >= 1.4*1.4) {", "   } else if (std::norm(z) >= 1.4*1.4 && (n < 20 || n > 64)) {")],
    needs="order 20...64 and |log z| >= 2 pi",
    breaks="the expansion around 1 is used beyond its radius of convergence",
    demo=r"""
int main() { alarm(20); const cd a = Li(21, cd(1e4, 0.0)), b = Li(21, cd(1e4, -1e-300)); std::printf("%g %g %g\n", a.real(), a.imag(), b.real());
  // Li_21 is close to z at moderate z: -ln(-z)^21/21! is small
  long double l = std::log(1e4L); (void)l;
  const cd q = Li(21, cd(100.0, 0.0)), p = Li(21, cd(-100.0, 0.0)), h = Li(21, cd(1e4, 0.0));
  return check("duplication", std::real(q + p), std::real(h)*std::exp2(-20.0L), 1e-9L); }
""")

bug(id="li3-conj-sign", property="C13",
    edits=[("src/cpp/Li3.cpp", """      const double arg = pz > 0.0 ? pz - PI : pz + PI;""", """      const double arg = pz > -1e-200 ? pz - PI : pz + PI;""")],
    needs="z outside of the unit disk next to the cut, below it by less than 1e-200 |z|",
    breaks="Li3 below the cut has the value from above",
    demo=r"""
int main() { return Li3(cd(5.0, -1e-205)).imag() < 0 ? 0 : 1; }
""")

bug(id="cl1-denormal", property="C17",
    edits=[("src/cpp/Cl1.cpp", "   return -std::log(2.0*std::sin(0.5*x));", "   const double s = std::sin(0.5*x);\n\n   return -0.5*std::log(4*s*s);")],
    needs="|x| below 1e-162",
    breaks="the square underflows: Cl1 is infinite at a nonzero angle",
    demo=r"""
int main() { return std::isfinite(Cl(1, 1e-200)) ? 0 : 1; }
""")

bug(id="li2-overflow-square", property="C17",
    edits=[("src/cpp/Li2.cpp", """   } else {
      const double l = std::log(x);
      y = 1/x;
      r = PI*PI/3 - 0.5*l*l;
      s = -1;
   }""", """   } else {
      const double l = 0.5*std::log(x*x);
      y = 1/x;
      r = PI*PI/3 - 0.5*l*l;
      s = -1;
   }""")],
    needs="real x above 1e154",
    breaks="x*x overflows, Li2 is -inf at a finite argument",
    demo=r"""
int main() { return std::isfinite(Li2(1e200)) ? 0 : 1; }
""")


# ---- third batch -------------------------------------------------------------------------------
import os as _os
_QUAD = open(_os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "engine", "rt_quad.c")).read()
QUAD_SCRIPT = """#!/bin/bash
# the sources with a long double of quadruple precision; exit 0: the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
gcc -O1 -c "$here/shims.c" -o "$tmp/shims.o" || exit 3
for f in src/c/*.c; do gcc -O1 -mlong-double-128 -Isrc/c -c "$f" -o "$tmp/c_$(basename "$f").o" || exit 3; done
for f in src/cpp/*.cpp; do g++ -std=c++17 -O1 -mlong-double-128 -Isrc/cpp -c "$f" -o "$tmp/cpp_$(basename "$f").o" || exit 3; done
g++ -std=c++17 -O1 -mlong-double-128 -Isrc/cpp "$here/demo.cpp" "$tmp"/*.o -o "$tmp/demo" -lquadmath -lm || exit 3
timeout 120 "$tmp/demo"
"""
bug(id="li3l-quad-digit", property="C22", script=QUAD_SCRIPT, files={"shims.c": _QUAD},
    edits=[("src/cpp/Li3.cpp", "-1.06828138090773812240182143033807908e-29L", "-1.06828138090773812240182143033807908e-28L")],
    needs="a long double of quadruple precision",
    breaks="a coefficient of the series used for LDBL_DIG > 18 is ten times too large",
    demo=r"""
int main() { const cl z(-0.4L, 0.85L), d = Li3(z) + Li3(-z) - Li3(z*z)/4.0L; // duplication formula
  std::printf("%g\n", (double)std::abs(d)); return std::abs(d) < 1e-32L ? 0 : 1; }
""")

bug(id="cli6l-quad-sign", property="C22", script=QUAD_SCRIPT, files={"shims.c": _QUAD},
    edits=[("src/c/Li6.c", "     -5.44017883796246961820291930722306669e-30L,", "      5.44017883796246961820291930722306669e-30L,")],
    needs="a long double of quadruple precision",
    breaks="a coefficient of the series used for LDBL_DIG > 18 in the C library has the wrong sign",
    demo=r"""
extern "C" __complex__ long double cli6l(__complex__ long double);
static cl f(cl z) { __complex__ long double w; __real__ w = z.real(); __imag__ w = z.imag(); w = cli6l(w); return cl(__real__ w, __imag__ w); }
int main() { const cl z(-0.4L, 0.85L), d = f(z) + f(-z) - f(z*z)/32.0L;
  std::printf("%g\n", (double)std::abs(d)); return std::abs(d) < 1e-32L ? 0 : 1; }
""")

bug(id="c-li3-half-range", property="C14",
    edits=[("src/c/Li3.c", "   } else if (x < 0.5) {", "   } else if (x < 0.57) {")],
    needs="0.5 < x < 0.57 in C",
    breaks="li3 in C differs from Li3 in C++: the rational approximation is used outside of its interval",
    demo=r"""
extern "C" double li3(double);
int main() { return check("li3", li3(0.567), Li3(0.567), 3e-14L); }
""")

bug(id="li-unity-stdlog", property="C12",
    edits=[("src/cpp/Li.cpp", "      sum += (harmonic(n - 1) - clog(-lnz))*p;", "      sum += (harmonic(n - 1) - std::log(-lnz))*p;")],
    needs="order n >= 7 and z real, 1 < z < 1.4",
    breaks="the imaginary part on the cut has the wrong sign",
    demo=r"""
int main() { return check("Im Li(8,1.25)", Li(8, cd(1.25, 0.0)).imag(), -3.14159265358979324L*std::pow(std::log(1.25L), 7)/5040, 1e-9L); }
""")

bug(id="cli2-clear-overflow", property="C19",
    edits=[("src/c/Li2.c", """   const double nz = rz*rz + iz*iz;

   if (nz < DBL_EPSILON) {
      return z*(1.0 + 0.25*z);
   }
""", """   const double nz = rz*rz + iz*iz;

   if (nz < DBL_EPSILON) {
      return z*(1.0 + 0.25*z);
   } else if (nz > DBL_MAX) {
      feclearexcept(FE_OVERFLOW); // spurious
   }
"""), ("src/c/Li2.c", "#include <complex.h>\n", "#include <complex.h>\n#include <fenv.h>\n")],
    needs="FE_OVERFLOW raised by the caller before a call of cli2 with |z|^2 > DBL_MAX",
    breaks="the call clears a floating-point exception flag of the caller",
    demo=r"""
#include <cfenv>
extern "C" __complex__ double cli2(__complex__ double);
int main() { std::feraiseexcept(FE_OVERFLOW); __complex__ double z; __real__ z = 1e200; __imag__ z = 1e100; z = cli2(z);
  std::printf("%g\n", (double)__real__ z); return std::fetestexcept(FE_OVERFLOW) ? 0 : 1; }
""")

bug(id="cl-bernoulli-nan", property="C18",
    edits=[("src/cpp/Cl.cpp", "   for (int64_t k = 1; k <= static_cast<int64_t>(sizeof(B)/sizeof(B[0])); ++k) {\n", "   for (int64_t k = 1; ; ++k) { // converges for x <= pi\n")],
    needs="Cl(7,x), Cl(8,x) or Cl(9,x) with x NaN or infinite",
    breaks="the loop does not end and reads past the end of the table",
    script="""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -g -fsanitize=address -Isrc/cpp "$here/demo.cpp" src/cpp/*.cpp -o "$tmp/demo" -lm || exit 3
timeout 60 "$tmp/demo"
""",
    demo=r"""
int main() { return std::isnan(Cl(7, std::nan(""))) ? 0 : 1; }
""")

bug(id="cl-series-four-terms", property="C08",
    edits=[("src/cpp/Cl.cpp", "   const auto kmax = static_cast<int64_t>(std::ceil(std::pow(eps, -1.0/n)));", "   const auto kmax = n < 20 ? static_cast<int64_t>(std::ceil(std::pow(eps, -1.0/n))) : 4;")],
    needs="order 20 or 22 and small angles",
    breaks="the series is truncated too early",
    demo=r"""
int main() { const double x = 1e-3; long double s = 0; for (int k = 60; k > 0; --k) s += std::sin((long double)x*k)*std::pow((long double)k, -20.0L); return check("Cl(20,1e-3)", Cl(20, x), s, 1e-14L); }
""")

bug(id="harmonic-digamma-order", property="C05",
    edits=[("src/cpp/harmonic.cpp", "   } else if (n < 20) {", "   } else if (n < 6) {"),
           ("src/cpp/harmonic.cpp", "      - t2*(c[0] + t2*(c[1] + t2*(c[2] + t2*(c[3] + t2*(c[4] + t2*(c[5] + t2*(c[6] + t2*c[7])))))));", "      - t2*(c[0] + t2*(c[1] + t2*(c[2] + t2*c[3]))); // t2 < 1/400")],
    needs="two cooperating edits: orders 7 to 12 and z away from 1",
    breaks="the harmonic number of 6..11 is wrong by up to 3e-11, and so is Li(n,z)",
    demo=r"""
int main() { // duplication: Li(7,z) + Li(7,-z) = 2^-6 Li(7,z^2)
  const cd z(-0.3, 0.95); const cd d = Li(7, z) + Li(7, -z) - Li(7, z*z)/64.0; std::printf("%g\n", std::abs(d)); return std::abs(d) < 3e-14 ? 0 : 1; }
""")

bug(id="li-series-negated-order", property="C18",
    edits=[("src/cpp/Li.cpp", "         p *= z*std::pow(k/(1.0 + k), n);", "         p *= z*std::pow((1.0 + k)/k, -n);")],
    needs="n = -2^63",
    breaks="signed integer overflow",
    script="""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -g -fsanitize=undefined -fno-sanitize-recover=all -Isrc/cpp "$here/demo.cpp" src/cpp/*.cpp -o "$tmp/demo" -lm || exit 3
timeout 60 "$tmp/demo"
""",
    demo=r"""
int main() { const cd r = Li(std::numeric_limits<int64_t>::min(), cd(1e-300, 0.0)); std::printf("%g %g\n", r.real(), r.imag()); return std::isinf(r.real()) ? 0 : 1; }
""")

bug(id="sl-pow-int", property="C09",
    edits=[("src/cpp/Sl.cpp", """         sum += con*std::pow(k, -n);
""", """         sum += con*std::pow(k, static_cast<int>(-n));
""")],
    needs="even orders above 2^31 which are a small number modulo 2^32",
    breaks="the exponent is narrowed",
    demo=r"""
int main() { return check("Sl(2^32+2,0.5)", Sl((int64_t(1) << 32) + 2, 0.5), std::cos(0.5L), 1e-14L); }
""")

bug(id="fortran-cdli6-arg", property="C19",
    edits=[("src/fortran/Li6.f90", "      u = -cdlog1p(-1/z)\n", "      z = 1/z\n      u = -cdlog1p(-z)\n")],
    needs="|z| > 1; the caller uses its variable again",
    breaks="the call overwrites the argument of the caller",
    demo=r"""
extern "C" __complex__ double cdli6_(__complex__ double*);
int main() { __complex__ double z; __real__ z = 3; __imag__ z = 4; __complex__ double r = cdli6_(&z); std::printf("%g\n", (double)__real__ r); return __real__ z == 3 && __imag__ z == 4 ? 0 : 1; }
""")

bug(id="fortran-li5-elseif", property="C17",
    edits=[("src/fortran/Li5.f90", "   else ! nz > 1\n", "   elseif (nz .gt. 1) then\n")],
    needs="z with a NaN part",
    breaks="u and rest are used uninitialized if |z| is NaN",
    script="""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
for i in zero inf; do
  for f in src/fortran/*.f90; do gfortran -O0 -finit-real=$i -J "$tmp" -c "$f" -o "$tmp/$(basename "$f").o" || exit 3; done
  g++ -std=c++17 -O1 -Isrc/cpp "$here/demo.cpp" "$tmp"/*.o -o "$tmp/demo" -lgfortran -lquadmath -lm 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
  timeout 60 "$tmp/demo" || exit 1
done
""",
    demo=r"""
extern "C" __complex__ double cdli5_(__complex__ double*);
int main() { __complex__ double z; __real__ z = std::nan(""); __imag__ z = 4; z = cdli5_(&z); std::printf("%g %g\n", (double)__real__ z, (double)__imag__ z); return std::isnan((double)__real__ z) || std::isnan((double)__imag__ z) ? 0 : 1; }
""")

bug(id="cl2l-literal-suffix", property="C07",
    edits=[("src/cpp/Cl2.cpp", "      const long double p1 = 0.0019353071795864769252867665590057683943L;", "      const long double p1 = 0.0019353071795864769252867665590057683943;")],
    needs="long double Cl2 between pi and 2 pi, in relative terms next to 2 pi",
    breaks="the suffix of a long double constant is missing",
    demo=r"""
int main() { const long double x = 6.283185L, y = (6.28125L - x) + 0.0019353071795864769252867665590057683943L; return check("Cl2l", Cl2(x), -Cl2(y), 1e-17L); }
""")

bug(id="sl-nearbyint-turns", property="C23",
    edits=[("src/cpp/Sl.cpp", """void range_reduce_even(double& x) noexcept
{
   if (x < 0) {
      x = -x;
   }

   if (x >= 2*PI) {
      x = std::fmod(x, 2*PI);
   }
""", """void range_reduce_even(double& x) noexcept
{
   if (x < 0) {
      x = -x;
   }

   if (x >= 2*PI) {
      // number of full turns
      const double k = std::nearbyint(x/(2*PI) - 0.5);
      x = std::fabs(std::fma(-k, 2*PI, x));
   }
""")],
    needs="rounding downward or toward zero and an angle of more than one turn",
    breaks="the number of turns is rounded in the current direction: the reduced angle is off by a turn",
    demo=r"""
#include <cfenv>
int main() {
   const double want = Sl(4, 7.5 - 2*M_PI);
   std::fesetround(FE_DOWNWARD);
   const double got = Sl(4, 7.5);
   std::fesetround(FE_TONEAREST);
   return check("Sl(4,7.5), rounding downward", got, want, 1e-10L);
}
""")

bug(id="cl-series-epsilon-loop", property="C23",
    edits=[("src/cpp/Cl.cpp", """      for (int64_t k = 2; k <= kmax; ++k) {
         const double con = 2*co*co1 - co2; // cos(n*x)
""", """      for (int64_t k = 2; k <= kmax || 1 + std::pow(k, -n) != 1; ++k) {
         const double con = 2*co*co1 - co2; // cos(n*x)
""")],
    needs="rounding upward",
    breaks="1 + k^-n != 1 holds for every k in rounding upward: the call does not return",
    demo=r"""
#include <cfenv>
int main() {
   alarm(10);
   const double want = Cl(11, 1.25);
   std::fesetround(FE_UPWARD);
   const double got = Cl(11, 1.25);
   std::fesetround(FE_TONEAREST);
   return check("Cl(11,1.25), rounding upward", got, want, 1e-10L);
}
""")


FLAGS = r"""
#include <cfenv>
static int raised(const char* what, int f) {
   std::printf("%s:%s%s%s\n", what, f & FE_INVALID ? " invalid" : "", f & FE_DIVBYZERO ? " division-by-zero" : "", f & FE_OVERFLOW ? " overflow" : "");
   return f != 0;
}
static const int F = FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW;
"""

bug(id="cl4-zero-after-log", property="C24",
    edits=[("src/cpp/Cl4.cpp", """   if (x == 0) {
      return x;
   } else if (x == PI) {
      return 0;
   }

   double h = 0;
""", """   if (x == PI) {
      return 0;
   }

   const double x0 = x;
   double h = 0;
"""), ("src/cpp/Cl4.cpp", "      h = x*(zeta3 + y*(p/q + 1./6*std::log(x)));\n", "      h = x*(zeta3 + y*(p/q + 1./6*std::log(x)));\n      if (x0 == 0) { return x0; }\n")],
    needs="the angle 0 (or exactly a turn), and traps or a look at the exception flags",
    breaks="log(0) is evaluated before the zero angle is recognized: exceptions division-by-zero and invalid",
    demo=FLAGS + r"""
int main() {
   volatile double x = 0;
   std::feclearexcept(FE_ALL_EXCEPT);
   volatile double r = Cl4(x);
   (void)r;
   return raised("Cl4(0)", std::fetestexcept(F));
}
""")

bug(id="li3-log-hoisted", property="C24",
    edits=[("src/cpp/Li3.cpp", """   const double zeta2 = 1.6449340668482264;
   const double zeta3 = 1.2020569031595943;

   // transformation to [-1,0] and [0,1/2]
   if (x < -1) {
      const double l = std::log(-x);
      return""", """   const double zeta2 = 1.6449340668482264;
   const double zeta3 = 1.2020569031595943;
   const double l = std::log(std::abs(x));

   // transformation to [-1,0] and [0,1/2]
   if (x < -1) {
      return"""), ("src/cpp/Li3.cpp", """   } else if (x < 2) {
      const double l = std::log(x);
      return -li3_neg(1 - x) - li3_pos(1 - 1/x)
         + zeta3 + l*(zeta2""", """   } else if (x < 2) {
      return -li3_neg(1 - x) - li3_pos(1 - 1/x)
         + zeta3 + l*(zeta2"""), ("src/cpp/Li3.cpp", """   } else { // x >= 2.0
      const double l = std::log(x);
      return""", """   } else { // x >= 2.0
      return""")],
    needs="x = 0, and traps or a look at the exception flags",
    breaks="the logarithm, needed outside (-1, 1/2] only, is evaluated for x = 0, too: exception division-by-zero",
    demo=FLAGS + r"""
int main() {
   volatile double x = 0;
   std::feclearexcept(FE_ALL_EXCEPT);
   volatile double r = Li3(x);
   (void)r;
   return raised("Li3(0)", std::fetestexcept(F));
}
""")

bug(id="li0-conjugate-division", property="C06",
    edits=[("src/cpp/Li.cpp", "      return z/(1.0 - z);\n", "      return z*(std::conj(1.0 - z)/std::norm(1.0 - z)); // division without scaling\n")],
    needs="order 0 and |z| > 1e154, where |1 - z|^2 overflows",
    breaks="1/(1-z) is computed as conj(1-z)/|1-z|^2, which underflows to 0: Li(0,z) returns 0 instead of -1",
    demo=r"""
int main() { const cd r = Li(0, cd(-3e160, 4e160)); return check("Re Li(0,z)", r.real(), -1, 1e-12L); }
""")

def BUILD_DEMO(cxx, flags):
    return """#!/bin/bash
# exit 0: the property holds for the demonstrated input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
# the C++ sources are compiled in another way than in the build of the library
for f in src/cpp/*.cpp; do
   %s -std=c++17 %s -I src/cpp -c "$f" -o "$tmp/$(basename "$f").o" || exit 3
done
g++ -std=c++17 -O1 -I src/cpp "$here/demo.cpp" -o "$tmp/demo" "$tmp"/*.o \\
   _build/src/c/libpolylogarithm_c.a _build/src/fortran/libpolylogarithm_fortran.a -lgfortran -lquadmath -lm || exit 3
timeout 120 "$tmp/demo"
""" % (cxx, flags)

bug(id="cl5-magic-round", property="C25",
    edits=[("src/cpp/Cl5.cpp", """   const double zeta5 = 1.0369277551433699;

   if (x < 0) {
      x = -x;
   }

   if (x >= PI2) {
      x = std::fmod(x, PI2);
   }
""", """   const double zeta5 = 1.0369277551433699;

   if (x < 0) {
      x = -x;
   }

   if (x >= PI2) {
      // subtract the nearest number of full turns
      const double magic = 6755399441055744.0; // 1.5*2^52
      const double k = (x/PI2 + magic) - magic;
      x = std::abs(std::fma(-k, PI2, x));
   }
""")],
    needs="compilation with extended precision of intermediate results (FLT_EVAL_METHOD = 2) and an angle of more than one turn",
    breaks="adding and subtracting 1.5*2^52 rounds to an integer only if the sum is rounded to double precision",
    script=BUILD_DEMO("g++", "-O1 -mfpmath=387"),
    demo=r"""
int main() { return check("Cl5(20)", Cl5(20.0), Cl5(20.0 - 3*2*3.14159265358979324), 1e-12L); }
""")

bug(id="sl-series-pairs", property="C25",
    edits=[("src/cpp/Sl.cpp", """      sum = si;
      for (int64_t k = 2; k <= kmax; ++k) {
         si = 2*co*si1 - si2; // sin(n*x)
         si2 = si1;
         si1 = si;
         sum += si*std::pow(k, -n);
      }
""", """      sum = si;
      const auto next = [&] {
         si = 2*co*si1 - si2; // sin(n*x)
         si2 = si1;
         si1 = si;
         return si;
      };
      // two terms at a time, smaller one first
      const auto pair = [n](int64_t k, double sb, double sa) {
         return sb*std::pow(k + 1, -n) + sa*std::pow(k, -n);
      };
      for (int64_t k = 2; k <= kmax; k += 2) {
         sum += pair(k, next(), next());
      }
""")],
    needs="a compiler that evaluates function arguments from left to right (clang), Sl(n,x) with odd n for which the series is used",
    breaks="the order of the two calls of next() is unspecified: the terms are exchanged",
    script=BUILD_DEMO("clang++", "-O1"),
    demo=r"""
int main() {
   long double s = 0;
   for (int k = 1; k < 40; ++k) s += std::sin(k*1.25L)*std::pow((long double)k, -33.0L);
   return check("Sl(33,1.25)", Sl(33, 1.25), s, 1e-13L);
}
""")

bug(id="cl6-fma-reduction", property="C25",
    edits=[("src/cpp/Cl6.cpp", """      const double p0 = 6.28125;
      const double p1 = 0.0019353071795864769253;
      x = (p0 - x) + p1;
""", """#ifdef __FMA__
      x = std::fma(2.0, PI, -x); // rounded once
#else
      const double p0 = 6.28125;
      const double p1 = 0.0019353071795864769253;
      x = (p0 - x) + p1;
#endif
""")],
    needs="compilation for a processor with fused multiply-add, an angle next to 2 pi",
    breaks="the fused operation is rounded once, but pi is rounded already: 2 pi - x loses relative accuracy",
    script=BUILD_DEMO("g++", "-O2 -mfma"),
    demo=r"""
int main() {
   const double x = 6.283185307;
   const double y = (6.28125 - x) + 0.0019353071795864769253;
   return check("Cl6(6.283185307)", Cl6(x), -Cl6(y), 1e-13L);
}
""")

bug(id="cl3-int-turns", property="C24",
    edits=[("src/cpp/Cl3.cpp", """   if (x >= PI2) {
      x = std::fmod(x, PI2);
   }

   if (x > PI) {
      const double p0""", """   if (static_cast<int>(x/PI2) != 0) { // more than one turn
      x = std::fmod(x, PI2);
   }

   if (x > PI) {
      const double p0""")],
    needs="an angle of more than 2^31 turns, and traps or a look at the exception flags",
    breaks="the conversion to int is out of range: exception invalid, although the result is right",
    demo=FLAGS + r"""
int main() {
   volatile double x = 1e12;
   std::feclearexcept(FE_ALL_EXCEPT);
   volatile double r = Cl3(x);
   (void)r;
   return raised("Cl3(1e12)", std::fetestexcept(F));
}
""")

bug(id="cl5l-floor-turns", property="C10",
    edits=[("src/cpp/Cl5.cpp", "   const long double PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8;\n   const long double zeta5 = 1.036927755143369926331365486457034168057L;\n\n   if (x < 0) {\n      x = -x;\n   }\n\n   if (x >= PI2) {\n      x = std::fmod(x, PI2);\n   }\n",
"   const long double PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8;\n   const long double zeta5 = 1.036927755143369926331365486457034168057L;\n\n   if (x < 0) {\n      x = -x;\n   }\n\n   if (x >= PI2) {\n      x = std::fma(-PI2, std::floor(x/PI2), x);\n   }\n")],
    needs="a long double angle of more than 2^64",
    breaks="the rounded quotient leaves a remainder outside of one turn: result out of range or NaN",
    demo=r"""
int main() {
   int bad = 0;
   for (long double x = 1e18L; x < 1e30L; x *= 3.7L) {
      const long double r = Cl5(x);
      if (!(std::abs(r) <= 1.0369277551433699264L)) { std::printf("Cl5(%Lg) = %Lg\n", x, r); bad = 1; }
   }
   return bad;
}
""")

bug(id="eta-overflow-sign", property="C20",
    edits=[("src/cpp/eta.cpp", "      } else if (is_even((n - 1)/2)) {\n", "      } else if (n % 4 == 1) {\n")],
    needs="z = -1 and a negative odd order beyond the table",
    breaks="the remainder of a negative order is negative: every overflow has the same sign",
    demo=r"""
int main() {
   int bad = 0;
   // the signs of finite and infinite values alternate: +,-,+,- for n = -1,-3,-5,... reversed for -eta
   const bool pos1 = Li(-1, -1.0).real() > 0;
   for (int64_t n = -1; n >= -2001; n -= 2) {
      const double r = Li(n, -1.0).real();
      const bool pos = (-(n + 1)/2) % 2 == 0 ? pos1 : !pos1;
      if ((r > 0) != pos) { std::printf("Li(%lld,-1) = %g\n", (long long)n, r); bad = 1; break; }
   }
   return bad;
}
""")

bug(id="cli2l-at-one", property="C11",
    edits=[("src/c/Li2.c", "      if (rz <= 1) {\n         return CMPLXL(li2l(rz), iz);\n", "      if (rz < 1) {\n         return CMPLXL(li2l(rz), iz);\n")],
    needs="cli2l at exactly 1, sign of the zero imaginary part",
    breaks="-pi log(1) = -0: the imaginary part at 1 + 0i is a negative zero",
    demo=r"""
extern "C" __complex__ long double cli2l(__complex__ long double);
int main() { __complex__ long double z; __real__ z = 1; __imag__ z = 0; return std::signbit(__imag__ cli2l(z)); }
""")
