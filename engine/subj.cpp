#include "subj.h"
#include <complex>
#include "Cl.hpp"
#include "Cl1.hpp"
#include "Cl2.hpp"
#include "Cl3.hpp"
#include "Cl4.hpp"
#include "Cl5.hpp"
#include "Cl6.hpp"
#include "Li.hpp"
#include "Li2.hpp"
#include "Li3.hpp"
#include "Li4.hpp"
#include "Li5.hpp"
#include "Li6.hpp"
#include "Sl.hpp"

typedef _Complex float c32_;
typedef _Complex double c64_;
typedef _Complex long double c80_;

extern "C" {
float li2f(float);
double li2(double);
long double li2l(long double);
double li3(double);
double li4(double);
c32_ cli2f(c32_);
c64_ cli2(c64_);
c80_ cli2l(c80_);
c64_ cli3(c64_);
c80_ cli3l(c80_);
c64_ cli4(c64_);
c80_ cli4l(c80_);
c64_ cli5(c64_);
c80_ cli5l(c80_);
c64_ cli6(c64_);
c80_ cli6l(c80_);
double cl2(double);
double cl3(double);
double cl4(double);
double cl5(double);
double cl6(double);
long double cl2l(long double);
long double cl3l(long double);
long double cl4l(long double);
long double cl5l(long double);
long double cl6l(long double);
double dli2_(double*);
double dli3_(double*);
double dli4_(double*);
c64_ cdli2_(c64_*);
c64_ cdli3_(c64_*);
c64_ cdli4_(c64_*);
c64_ cdli5_(c64_*);
c64_ cdli6_(c64_*);
double dcl2_(double*);
double dcl3_(double*);
double dcl4_(double*);
double dcl5_(double*);
double dcl6_(double*);
}
namespace pl = polylogarithm;

#define ARGS (int64_t n, const X* in, X* out)
#define KEEP2 out[2] = in[0]; out[3] = in[1]; (void)n

// real functions
#define CR(NAME, T, EXPR) [] ARGS { KEEP2; const T x = (T)in[0]; out[0] = (X)(EXPR); out[1] = 0; }
#define FR(F) [] ARGS { (void)n; double x = (double)in[0]; out[0] = (X)F(&x); out[1] = 0; out[2] = x; out[3] = in[1]; }
// complex functions
#define ZP(T, EXPR) [] ARGS { KEEP2; std::complex<T> z((T)in[0], (T)in[1]); const std::complex<T> r = (EXPR); \
      out[0] = (X)r.real(); out[1] = (X)r.imag(); out[2] = z.real(); out[3] = z.imag(); }
#define ZC(CT, T, F) [] ARGS { KEEP2; CT z; __real__ z = (T)in[0]; __imag__ z = (T)in[1]; const CT r = F(z); \
      out[0] = (X)__real__ r; out[1] = (X)__imag__ r; }
#define ZF(F) [] ARGS { (void)n; c64_ z; __real__ z = (double)in[0]; __imag__ z = (double)in[1]; const c64_ r = F(&z); \
      out[0] = (X)__real__ r; out[1] = (X)__imag__ r; out[2] = __real__ z; out[3] = __imag__ z; }

static const Subject tab[] = {
   // real polylogarithms
   {"c++ Li2(float)", LI, K_R, CPP, P32, 2, CR(, float, pl::Li2(x)), (void*)(float (*)(float))[](float x) { return pl::Li2(x); }},
   {"c li2f", LI, K_R, CLANG, P32, 2, CR(, float, li2f(x)), (void*)li2f},
   {"c++ Li2(double)", LI, K_R, CPP, P64, 2, CR(, double, pl::Li2(x)), 0},
   {"c li2", LI, K_R, CLANG, P64, 2, CR(, double, li2(x)), 0},
   {"fortran dli2", LI, K_R, FORT, P64, 2, FR(dli2_), 0},
   {"c++ Li2(long double)", LI, K_R, CPP, P80, 2, CR(, long double, pl::Li2(x)), 0},
   {"c li2l", LI, K_R, CLANG, P80, 2, CR(, long double, li2l(x)), 0},
   {"c++ Li3(double)", LI, K_R, CPP, P64, 3, CR(, double, pl::Li3(x)), 0},
   {"c li3", LI, K_R, CLANG, P64, 3, CR(, double, li3(x)), 0},
   {"fortran dli3", LI, K_R, FORT, P64, 3, FR(dli3_), 0},
   {"c++ Li4(double)", LI, K_R, CPP, P64, 4, CR(, double, pl::Li4(x)), 0},
   {"c li4", LI, K_R, CLANG, P64, 4, CR(, double, li4(x)), 0},
   {"fortran dli4", LI, K_R, FORT, P64, 4, FR(dli4_), 0},
   // complex polylogarithms
   {"c++ Li2(complex<float>)", LI, K_C, CPP, P32, 2, ZP(float, pl::Li2(z)), 0},
   {"c cli2f", LI, K_C, CLANG, P32, 2, ZC(c32_, float, cli2f), 0},
#define ALLZ(N) \
   {"c++ Li" #N "(complex<double>)", LI, K_C, CPP, P64, N, ZP(double, pl::Li##N(z)), 0}, \
   {"c cli" #N, LI, K_C, CLANG, P64, N, ZC(c64_, double, cli##N), 0}, \
   {"fortran cdli" #N, LI, K_C, FORT, P64, N, ZF(cdli##N##_), 0}, \
   {"c++ Li" #N "(complex<long double>)", LI, K_C, CPP, P80, N, ZP(long double, pl::Li##N(z)), 0}, \
   {"c cli" #N "l", LI, K_C, CLANG, P80, N, ZC(c80_, long double, cli##N##l), 0},
   ALLZ(2) ALLZ(3) ALLZ(4) ALLZ(5) ALLZ(6)
   {"c++ Li(n,complex<double>)", LI, K_NC, CPP, P64, 0, ZP(double, pl::Li(n, z)), 0},
   // Clausen functions
   {"c++ Cl1(double)", CL, K_R, CPP, P64, 1, CR(, double, pl::Cl1(x)), 0},
#define ALLC(N) \
   {"c++ Cl" #N "(double)", CL, K_R, CPP, P64, N, CR(, double, pl::Cl##N(x)), 0}, \
   {"c cl" #N, CL, K_R, CLANG, P64, N, CR(, double, cl##N(x)), 0}, \
   {"fortran dcl" #N, CL, K_R, FORT, P64, N, FR(dcl##N##_), 0}, \
   {"c++ Cl" #N "(long double)", CL, K_R, CPP, P80, N, CR(, long double, pl::Cl##N(x)), 0}, \
   {"c cl" #N "l", CL, K_R, CLANG, P80, N, CR(, long double, cl##N##l(x)), 0},
   ALLC(2) ALLC(3) ALLC(4) ALLC(5) ALLC(6)
   {"c++ Cl(n,double)", CL, K_NR, CPP, P64, 0, CR(, double, pl::Cl(n, x)), 0},
   {"c++ Sl(n,double)", SL, K_NR, CPP, P64, 0, CR(, double, pl::Sl(n, x)), 0},
};
static const SubjectTable table = {sizeof(tab)/sizeof(tab[0]), tab};
extern "C" const SubjectTable* verif_subjects() { return &table; }
