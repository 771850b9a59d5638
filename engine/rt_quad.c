/* Variant "quad": the long double of the code under test has quadruple precision (-mlong-double-128).
 * This file provides the long double functions of libm for it, by libquadmath.  It is compiled
 * without that option; the functions get their names by asm labels. */
#include <quadmath.h>
typedef __float128 Q;
typedef __complex128 Z;
#define Q1(f) Q sh_##f##l(Q) __asm__(#f "l"); Q sh_##f##l(Q x) { return f##q(x); }
#define Q2(f) Q sh_##f##l(Q, Q) __asm__(#f "l"); Q sh_##f##l(Q x, Q y) { return f##q(x, y); }
#define Z1(f) Z sh_##f##l(Z) __asm__(#f "l"); Z sh_##f##l(Z x) { return f##q(x); }
#define ZR(f) Q sh_##f##l(Z) __asm__(#f "l"); Q sh_##f##l(Z x) { return f##q(x); }
#define QI(T, f) T sh_##f##l(Q) __asm__(#f "l"); T sh_##f##l(Q x) { return f##q(x); }
Q1(acos) Q1(acosh) Q1(asin) Q1(asinh) Q1(atan) Q1(atanh) Q1(cbrt) Q1(ceil) Q1(cos) Q1(cosh) Q1(erf) Q1(erfc) Q1(exp) Q1(exp2)
Q1(expm1) Q1(fabs) Q1(floor) Q1(lgamma) Q1(log) Q1(log10) Q1(log1p) Q1(log2) Q1(logb) Q1(nearbyint) Q1(rint) Q1(round) Q1(sin) Q1(sinh)
Q1(sqrt) Q1(tan) Q1(tanh) Q1(tgamma) Q1(trunc)
Q2(atan2) Q2(copysign) Q2(fdim) Q2(fmax) Q2(fmin) Q2(fmod) Q2(hypot) Q2(nextafter) Q2(pow) Q2(remainder)
QI(int, ilogb) QI(long, lrint) QI(long long, llrint) QI(long, lround) QI(long long, llround)
Z1(cacos) Z1(cacosh) Z1(casin) Z1(casinh) Z1(catan) Z1(catanh) Z1(ccos) Z1(ccosh) Z1(cexp) Z1(clog) Z1(clog10) Z1(conj) Z1(cproj) Z1(csin) Z1(csinh)
Z1(csqrt) Z1(ctan) Z1(ctanh)
ZR(cabs) ZR(carg) ZR(creal) ZR(cimag)
Z sh_cpowl(Z, Z) __asm__("cpowl"); Z sh_cpowl(Z x, Z y) { return cpowq(x, y); }
Q sh_fmal(Q, Q, Q) __asm__("fmal"); Q sh_fmal(Q x, Q y, Q z) { return fmaq(x, y, z); }
Q sh_ldexpl(Q, int) __asm__("ldexpl"); Q sh_ldexpl(Q x, int e) { return ldexpq(x, e); }
Q sh_scalbnl(Q, int) __asm__("scalbnl"); Q sh_scalbnl(Q x, int e) { return scalbnq(x, e); }
Q sh_scalblnl(Q, long) __asm__("scalblnl"); Q sh_scalblnl(Q x, long e) { return scalblnq(x, e); }
Q sh_frexpl(Q, int*) __asm__("frexpl"); Q sh_frexpl(Q x, int* e) { return frexpq(x, e); }
Q sh_modfl(Q, Q*) __asm__("modfl"); Q sh_modfl(Q x, Q* i) { return modfq(x, i); }
Q sh_remquol(Q, Q, int*) __asm__("remquol"); Q sh_remquol(Q x, Q y, int* q) { return remquoq(x, y, q); }
void sh_sincosl(Q, Q*, Q*) __asm__("sincosl"); void sh_sincosl(Q x, Q* s, Q* c) { sincosq(x, s, c); }
Q sh_nanl(const char*) __asm__("nanl"); Q sh_nanl(const char* s) { return nanq(s); }
int sh_isinfl(Q) __asm__("__isinfl"); int sh_isinfl(Q x) { return isinfq(x); }
int sh_isnanl(Q) __asm__("__isnanl"); int sh_isnanl(Q x) { return isnanq(x); }
int sh_finitel(Q) __asm__("__finitel"); int sh_finitel(Q x) { return finiteq(x); }
int sh_signbitl(Q) __asm__("__signbitl"); int sh_signbitl(Q x) { return signbitq(x); }
