From ef815b1072683f9c5f49a30af16dbf4944bb9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 01/21] fix: do not modify the caller's argument in Fortran
 dcl2..dcl6 and dli4

---
 src/fortran/Cl2.f90 | 4 +++-
 src/fortran/Cl3.f90 | 5 ++++-
 src/fortran/Cl4.f90 | 4 +++-
 src/fortran/Cl5.f90 | 5 ++++-
 src/fortran/Cl6.f90 | 4 +++-
 src/fortran/Li4.f90 | 5 ++++-
 6 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..6307ffb 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl2(x)
       9.5432542196310670D-6,                &
      -1.8184302880448247D-8                 /)
 
+  x = x_in
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..b944ba7 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,8 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = x_in
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..525de98 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,7 @@ double precision function dcl4(x)
       5.9283675098376635D-7,                &
       9.4127575773361230D-10                /)
 
+  x = x_in
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..8d73c44 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -12,8 +12,9 @@
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = x_in
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..21ca60b 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -12,8 +12,9 @@
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl6(x)
       3.5669441618295266D-8,                &
       2.5315391843409925D-10                /)
 
+  x = x_in
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..6faa0b8 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -107,14 +107,17 @@ end function dli4_one
 !> @return \f$\operatorname{Li}_4(x)\f$
 !> @author Alexander Voigt
 !*********************************************************************
-double precision function dli4(x)
+double precision function dli4(x_in)
   implicit none
+  double precision, intent(in) :: x_in
   double precision :: x, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
 
   ! transform x to [-1,1]
+  x = x_in
+
   if (x .lt. -1) then
      l = log(-x)
      l2 = l**2
-- 
2.43.0


From 60805c1f725707ef966e4159c06ac193ea4da9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 02/21] fix: retain relative accuracy of complex Li3..Li6 for
 small/large |z| in C and Fortran

---
 src/c/Li3.c         | 8 ++++----
 src/c/Li4.c         | 8 ++++----
 src/c/Li5.c         | 8 ++++----
 src/c/Li6.c         | 8 ++++----
 src/fortran/Li3.f90 | 6 +++---
 src/fortran/Li4.f90 | 6 +++---
 src/fortran/Li5.f90 | 6 +++---
 src/fortran/Li6.f90 | 6 +++---
 8 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..e3862f4 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -165,11 +165,11 @@ double _Complex cli3(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
    }
 
@@ -317,11 +317,11 @@ long double _Complex cli3l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
    }
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..210ae83 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -224,12 +224,12 @@ double _Complex cli4(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = 1.0/360.0*(-7*PI4 + lmz2*(-30.0*PI2 - 15.0*lmz2));
       sgn = -1;
    }
@@ -377,12 +377,12 @@ long double _Complex cli4l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = 1.0L/360.0L*(-7*PI4 + lmz2*(-30.0L*PI2 - 15.0L*lmz2));
       sgn = -1;
    }
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..5a6cf3a 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -84,12 +84,12 @@ double _Complex cli5(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -1.0/360.0*lmz*(7*PI4 + lmz2*(10.0*PI2 + 3.0*lmz2));
    }
 
@@ -236,12 +236,12 @@ long double _Complex cli5l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -1.0L/360.0L*lmz*(7*PI4 + lmz2*(10.0L*PI2 + 3.0L*lmz2));
    }
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..2a32ce6 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -86,12 +86,12 @@ double _Complex cli6(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = -31.0*PI6/15120.0 + lmz2*(-7.0/720.0*PI4 + lmz2*(-1.0/144.0*PI2 - 1.0/720.0*lmz2));
       sgn = -1;
    }
@@ -247,12 +247,12 @@ long double _Complex cli6l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = -31.0L*PI6/15120.0L
           + lmz2*(-7.0L/720.0L*PI4 +
                   lmz2*(-1.0L/144.0L*PI2 - 1.0L/720.0L*lmz2));
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..9f3884e 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -109,7 +109,7 @@ end function dli3
 !*********************************************************************
 double complex function cdli3(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, dli3
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
@@ -165,7 +165,7 @@ double complex function cdli3(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -174,7 +174,7 @@ double complex function cdli3(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(lmz**2/6 + zeta2)
    endif
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 6faa0b8..a227a9e 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -167,7 +167,7 @@ end function dli4
 !*********************************************************************
 double complex function cdli4(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -228,7 +228,7 @@ double complex function cdli4(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -238,7 +238,7 @@ double complex function cdli4(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = (-7*PI4 + lmz**2*(-30*PI2 - 15*lmz**2))/360
       sgn = -1
    endif
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..4c274d2 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli5(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli5(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -88,7 +88,7 @@ double complex function cdli5(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(7*PI4 + lmz**2*(10*PI2 + 3*lmz**2))/360
    endif
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..bb2c28e 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli6(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli6(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -89,7 +89,7 @@ double complex function cdli6(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = -31*PI6/15120 + lmz**2*(-7*PI4/720 + lmz**2*(-PI2/144 - lmz**2/720))
       sgn = -1
    endif
-- 
2.43.0


From 8343de00502385b6c22945f4b19e9ae562efec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/21] fix: retain relative accuracy of cli2f for small |z|

---
 src/c/Li2.c |  8 ++++----
 src/c/log.c | 16 ++++++++++++++++
 src/c/log.h |  3 +++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..87e59fa 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -332,22 +332,22 @@ float _Complex cli2f(float _Complex z)
    if (rz <= 0.5f) {
       if (nz > 1.0f) {
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       } else { /* nz <= 1 */
-         u = -clogf(1.0f - z);
+         u = -clog1pf(-z);
          rest = 0;
          sgn = 1;
       }
    } else { /* rz > 0.5f */
       if (nz <= 2*rz) {
          u = -clogf(z);
-         rest = u*clogf(1.0f - z) + PI*PI/6;
+         rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
       } else { /* nz > 2*rz */
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       }
diff --git a/src/c/log.c b/src/c/log.c
index 760c063..7572358 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -8,6 +8,22 @@
 #include <math.h>
 
 
+float _Complex clog1pf(float _Complex z)
+{
+   const float _Complex u = 1.0f + z;
+   const float rz = crealf(u);
+   const float iz = cimagf(u);
+
+   if (rz == 1.0f && iz == 0.0f) {
+      return z;
+   } else if (rz <= 0.0f) {
+      return clogf(u);
+   }
+
+   return clogf(u)*(z/(u - 1.0f));
+}
+
+
 double _Complex clog1p(double _Complex z)
 {
    const double _Complex u = 1.0 + z;
diff --git a/src/c/log.h b/src/c/log.h
index 2a7b0cd..2404ebb 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+/** returns clog(1 + z) with single precision */
+float _Complex clog1pf(float _Complex z);
+
 /** returns clog(1 + z) with double precision */
 double _Complex clog1p(double _Complex z);
 
-- 
2.43.0


From 7b596fef8666a9318b8fe38f79c8da7d92be5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 04/21] fix: retain relative accuracy of Li(1,z) for small |z|

---
 src/cpp/Li.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..a56b1cf 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -13,6 +13,7 @@
 #include "eta.hpp"
 #include "factorial.hpp"
 #include "harmonic.hpp"
+#include "log.hpp"
 #include "zeta.hpp"
 #include <cmath>
 #include <complex>
@@ -207,7 +208,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
-      return -clog(1.0 - z);
+      return std::real(z) < 1.0 ? -log1p(-z) : -clog(1.0 - z);
    } else if (n == 2) {
       return Li2(z);
    } else if (n == 3) {
-- 
2.43.0


From ccd46fbc647ad4d352cdd9460c3e8a08d7450299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 05/21] fix: avoid O(n) iterations in Li(n,z) around z ~ 1 for
 large n

---
 src/cpp/Li.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index a56b1cf..dfe2048 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -73,6 +73,7 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
+         if (p == 0.0) { return sum; } // all remaining terms vanish
          sum += zeta(n - j)*p;
       }
 
-- 
2.43.0


From f2d1e94bb2948678b3632dc3a45b11b1f7227188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 06/21] fix: avoid overflow and loss of accuracy in Li(n,z) for
 large n and |z|

---
 src/cpp/Li.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index dfe2048..f870d7f 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -151,18 +151,19 @@ namespace {
       const std::complex<double> lnz = clog(-z);
       const std::complex<double> lnz2 = lnz*lnz;
       const int64_t kmax = is_even(n) ? n/2 : (n - 1)/2;
+      // p = lnz^(n - 2k)/(n - 2k)!
       std::complex<double> p = is_even(n) ? 1.0 : lnz;
       std::complex<double> sum(0.0, 0.0), old_sum;
 
       for (int64_t k = kmax; k != 0; --k) {
-         const double ifac = inv_fac(n - 2*k);
-         if (ifac == 0) { return 2.0*sum; }
-         sum += neg_eta(2*k)*ifac*p;
-         p *= lnz2;
+         const double j = n - 2*k;
+         old_sum = sum;
+         sum += neg_eta(2*k)*p;
          if (sum == old_sum) { break; }
+         p *= lnz2/((j + 1)*(j + 2));
       }
 
-      return 2.0*sum - p*inv_fac(n);
+      return 2.0*sum - p;
    }
 
 } // anonymous namespace
-- 
2.43.0


From aea1bfb0242be71b6ed0a4810b17f1c322ae25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 07/21] fix: avoid premature truncation of the series around z
 ~ 1 for n < 0 in Li(n,z)

---
 src/cpp/Li.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index f870d7f..3f3b232 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -140,7 +140,7 @@ namespace {
          sum += term;
          lnzk *= lnz2;
          k += 2;
-      } while (sum != sum_old);
+      } while (sum != sum_old || k <= -n); // terms may increase for k < |n|
 
       return sum;
    }
-- 
2.43.0


From 91fb17b4396565800ac7e69e4ba6beff7bdd5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 08/21] fix: avoid large cancellations in Li(n,z) for n < -1

---
 src/cpp/Li.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 3f3b232..2e193c2 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -64,6 +64,18 @@ namespace {
       return sum;
    }
 
+   /// Returns true if there are no large cancellations between the
+   /// terms in the series expansion of Li_n(z) in terms of powers of
+   /// z, n < 0, |z| < 1.  The largest term of the series is of the
+   /// order |n|!/|log|z||^(1 - n), while |Li_n(z)| is of the order
+   /// |n|!/|log(z)|^(1 - n).
+   bool is_series_stable(int64_t n, const std::complex<double>& z) noexcept
+   {
+      const std::complex<double> lnz = clog(z);
+      const double r = std::imag(lnz)/std::real(lnz);
+      return (1.0 - n)*std::log1p(r*r) < 4.0;
+   }
+
    /// Series expansion of Li_n(z) around z ~ 1, n > 0
    std::complex<double> Li_unity_pos(int64_t n, const std::complex<double>& z) noexcept
    {
@@ -198,9 +210,9 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       // arXiv:2010.09860
       const double nz = std::norm(z);
       const double nl = std::norm(clog(z));
-      if (4*PI*PI*nz < nl) {
+      if (4*PI*PI*nz < nl && is_series_stable(n, z)) {
          return Li_series(n, z);
-      } else if (nl < 0.512*0.512*4*PI*PI) {
+      } else if (nl < (n > -30 ? 0.512*0.512 : 0.36*0.36)*4*PI*PI) {
          return Li_unity_neg(n, z);
       }
       const auto sqrtz = std::sqrt(z);
-- 
2.43.0


From 9ee5b867a9c5785bffc63ea61d649b0204f09978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 09/21] fix: avoid overflow and loss of accuracy in Li(n,z) for
 n < -1 and large |z|

---
 src/cpp/Li.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 2e193c2..9ce24ce 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -214,6 +214,10 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
          return Li_series(n, z);
       } else if (nl < (n > -30 ? 0.512*0.512 : 0.36*0.36)*4*PI*PI) {
          return Li_unity_neg(n, z);
+      } else if (nz > 2) {
+         // inversion formula
+         const double sgn = is_even(n) ? -1.0 : 1.0;
+         return sgn*Li(n, 1.0/z);
       }
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
-- 
2.43.0


From 5cc89f82d9d5cdaccac83d00510706033f426758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 10/21] fix: avoid integer overflow and meaningless result on
 overflow in Li(n,z) for n << 0

---
 src/cpp/Li.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 9ce24ce..aa9e54c 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -57,7 +57,7 @@ namespace {
          sum_old = sum;
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
-         if (!is_finite(p)) { break; }
+         if (!is_finite(p)) { return { inf, inf }; } // overflow
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
@@ -132,7 +132,9 @@ namespace {
    {
       const std::complex<double> lnz = clog(z);
       const std::complex<double> lnz2 = lnz*lnz;
-      std::complex<double> sum = std::tgamma(1 - n)*stable_pow(-lnz, n - 1);
+      const double fac = std::tgamma(1.0 - n);
+      if (std::isinf(fac)) { return { inf, inf }; } // overflow
+      std::complex<double> sum = fac*stable_pow(-lnz, n - 1);
       std::complex<double> lnzk, sum_old, term;
       int64_t k;
 
@@ -220,7 +222,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
          return sgn*Li(n, 1.0/z);
       }
       const auto sqrtz = std::sqrt(z);
-      return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
+      return std::exp2(n - 1.0)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
       return z/((1.0 - z)*(1.0 - z));
    } else if (n == 0) {
-- 
2.43.0


From 2bd893c0faf8f2f614e8b93e947b5dfadf3632f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 11/21] fix: avoid overflow in the choice of the region in
 complex Li2 for large Re(z)

---
 src/c/Li2.c         | 6 +++---
 src/cpp/Li2.cpp     | 6 +++---
 src/fortran/Li2.f90 | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 87e59fa..70f9dd5 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -341,7 +341,7 @@ float _Complex cli2f(float _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5f */
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -clogf(z);
          rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
@@ -422,7 +422,7 @@ double _Complex cli2(double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5 */
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -clog(z);
          rest = u*clog1p(-z) + PI*PI/6;
          sgn = -1;
@@ -527,7 +527,7 @@ long double _Complex cli2l(long double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5L */
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -clogl(z);
          rest = u * clog1pl(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..dcb6cb8 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -334,7 +334,7 @@ std::complex<float> Li2(const std::complex<float>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -413,7 +413,7 @@ std::complex<double> Li2(const std::complex<double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -506,7 +506,7 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5L
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..6c9fefd 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -139,7 +139,7 @@ double complex function cdli2(z)
         sgn = 1
      endif
   else ! rz > 0.5D0
-     if (nz .le. 2*rz) then
+     if (0.5D0*nz .le. rz) then
         u = -log(z)
         rest = u*cdlog1p(-z) + PI**2/6
         sgn = -1
-- 
2.43.0


From 6f07e9354936a862de0564d78228c6a3ba72a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 12/21] fix: avoid endless loop in the series of Li(n,z) for
 subnormal terms

---
 src/cpp/Li.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index aa9e54c..a78d3bd 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -34,6 +34,13 @@ namespace {
       return std::isfinite(std::real(z)) && std::isfinite(std::imag(z));
    }
 
+   /// returns true if real and imaginary parts are zero or subnormal
+   bool is_subnormal(const std::complex<double>& z) noexcept
+   {
+      constexpr double min = std::numeric_limits<double>::min();
+      return std::abs(std::real(z)) < min && std::abs(std::imag(z)) < min;
+   }
+
    /// complex logarithm, converts -0.0 to 0.0
    std::complex<double> clog(const std::complex<double>& z) noexcept
    {
@@ -58,7 +65,7 @@ namespace {
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
          if (!is_finite(p)) { return { inf, inf }; } // overflow
-      } while (sum != sum_old &&
+      } while (sum != sum_old && !is_subnormal(p) &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
       return sum;
-- 
2.43.0


From 4f1b20d401a7cfdc929365ee2114f0406da11647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 13/21] fix: avoid NaN in Cl(n,x) for tiny x where x/2
 underflows

---
 src/cpp/Cl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/Cl.cpp b/src/cpp/Cl.cpp
index 1605f18..9a43960 100644
--- a/src/cpp/Cl.cpp
+++ b/src/cpp/Cl.cpp
@@ -307,9 +307,9 @@ double Cl(int64_t n, double x)
       const double sign1 = is_even((n + 1)/2) ? 1.0 : -1.0;
 
       // first line in Eq.(2.13)
-      const double term1 = x == 0 ? 0
-         : sign1*std::pow(x, n - 1)*inverse_factorial[n - 1] *
-           std::log(2*std::sin(x/2));
+      const double xn1 = std::pow(x, n - 1); // may underflow
+      const double term1 = xn1 == 0 ? 0
+         : sign1*xn1*inverse_factorial[n - 1]*std::log(2*std::sin(x/2));
 
       const double sign2 = is_even(n/2) ? 1.0 : -1.0;
 
-- 
2.43.0


From e8e68898a980b5029ec5ebab72f6ce2210969afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 14/21] fix: avoid endless loop and NaN in Li(n,z) if the
 modulus of z overflows

---
 src/cpp/Li.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index a78d3bd..1b30781 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -49,7 +49,11 @@ namespace {
       } else if (std::imag(z) == 0.0) {
          return { std::log(-std::real(z)), PI };
       }
-      return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
+      const double h = std::hypot(std::real(z), std::imag(z));
+      if (std::isinf(h)) { // overflow
+         return { std::log(std::hypot(0.5*std::real(z), 0.5*std::imag(z))) + 0.69314718055994531, std::arg(z) };
+      }
+      return { std::log(h), std::arg(z) };
    }
 
    /// Series expansion of Li_n(z) in terms of powers of z.
-- 
2.43.0


From 666f2b93621b300a88f7f5bf94a4f6797d92f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 15/21] fix: avoid uninitialized result of Fortran cdli2 if
 Re(z) is NaN and Im(z) = 0

---
 src/fortran/Li2.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 6c9fefd..8a9cadc 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -115,8 +115,11 @@ double complex function cdli2(z)
 
   ! special cases
   if (iz .eq. 0) then
-     if (rz .le. 1) cdli2 = dcmplx(dli2(rz), iz)
-     if (rz .gt. 1) cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     if (rz .le. 1) then
+        cdli2 = dcmplx(dli2(rz), iz)
+     else
+        cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     endif
      return
   endif
 
-- 
2.43.0


From ce13d9610130ffca6f720a4ce5785a9687a36465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 16/21] fix: avoid value on the wrong side of the cut in
 complex Li3..Li6 if arg(z) underflows

---
 src/c/Li3.c         |  4 ++--
 src/c/Li4.c         |  4 ++--
 src/c/Li5.c         |  4 ++--
 src/c/Li6.c         |  4 ++--
 src/c/log.c         | 39 +++++++++++++++++++++++++++++++++++++++
 src/c/log.h         |  6 ++++++
 src/cpp/Li3.cpp     |  4 ++--
 src/cpp/Li4.cpp     |  4 ++--
 src/cpp/Li5.cpp     |  4 ++--
 src/cpp/Li6.cpp     |  4 ++--
 src/cpp/log.hpp     | 20 ++++++++++++++++++++
 src/fortran/Li3.f90 |  4 ++--
 src/fortran/Li4.f90 |  4 ++--
 src/fortran/Li5.f90 |  4 ++--
 src/fortran/Li6.f90 |  4 ++--
 src/fortran/log.f90 | 20 ++++++++++++++++++++
 16 files changed, 109 insertions(+), 24 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index e3862f4..bf97151 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -136,7 +136,7 @@ double _Complex cli3(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -268,7 +268,7 @@ long double _Complex cli3l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 210ae83..1ea5c38 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -190,7 +190,7 @@ double _Complex cli4(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -328,7 +328,7 @@ long double _Complex cli4l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5a6cf3a..495159b 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -51,7 +51,7 @@ double _Complex cli5(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -186,7 +186,7 @@ long double _Complex cli5l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2a32ce6..2568391 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -51,7 +51,7 @@ double _Complex cli6(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -191,7 +191,7 @@ long double _Complex cli6l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/log.c b/src/c/log.c
index 7572358..691ee65 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -5,6 +5,7 @@
  * ==================================================================== */
 
 #include <complex.h>
+#include <float.h>
 #include <math.h>
 
 
@@ -98,3 +99,41 @@ long double _Complex pos_clogl(long double _Complex z)
 
    return clogl(z);
 }
+
+
+/**
+ * returns atan2(y, x)
+ * @param y y coordinate
+ * @param x x coordinate
+ * @note The sign of y is retained if the result underflows to zero
+ * @return atan2(y, x)
+ */
+double signed_atan2(double y, double x)
+{
+   const double a = atan2(y, x);
+
+   if (a == 0.0 && y != 0.0) {
+      return copysign(DBL_MIN, y);
+   }
+
+   return a;
+}
+
+
+/**
+ * returns atan2l(y, x)
+ * @param y y coordinate
+ * @param x x coordinate
+ * @note The sign of y is retained if the result underflows to zero
+ * @return atan2l(y, x)
+ */
+long double signed_atan2l(long double y, long double x)
+{
+   const long double a = atan2l(y, x);
+
+   if (a == 0.0L && y != 0.0L) {
+      return copysignl(LDBL_MIN, y);
+   }
+
+   return a;
+}
diff --git a/src/c/log.h b/src/c/log.h
index 2404ebb..9099f9d 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -20,3 +20,9 @@ double _Complex pos_clog(double _Complex z);
 
 /** returns clog(z) with long double precision */
 long double _Complex pos_clogl(long double _Complex z);
+
+/** returns atan2(y, x), retains the sign of y if the result underflows to zero */
+double signed_atan2(double y, double x);
+
+/** returns atan2l(y, x), retains the sign of y if the result underflows to zero */
+long double signed_atan2l(long double y, long double x);
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..eef8e09 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -144,7 +144,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -275,7 +275,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..1ed8bee 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -197,7 +197,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -325,7 +325,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..d747baa 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -54,7 +54,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -182,7 +182,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..729bbb0 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -54,7 +54,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -188,7 +188,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/log.hpp b/src/cpp/log.hpp
index b10ef72..ff93f75 100644
--- a/src/cpp/log.hpp
+++ b/src/cpp/log.hpp
@@ -8,6 +8,7 @@
 
 #include <cmath>
 #include <complex>
+#include <limits>
 
 namespace polylogarithm {
 
@@ -48,4 +49,23 @@ std::complex<T> pos_log(const std::complex<T>& z) noexcept
 }
 
 
+/**
+ * returns arg(z) for complex z
+ * @param z complex argument
+ * @note The sign of Im(z) is retained if arg(z) underflows to zero
+ * @return arg(z)
+ */
+template <typename T>
+T signed_arg(const std::complex<T>& z) noexcept
+{
+   const T a = std::arg(z);
+
+   if (a == T(0) && std::imag(z) != T(0)) {
+      return std::copysign(std::numeric_limits<T>::min(), std::imag(z));
+   }
+
+   return a;
+}
+
+
 } // namespace polylogarithm
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 9f3884e..fcb28e0 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -110,7 +110,7 @@ end function dli3
 double complex function cdli3(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, dli3
+  double precision :: rz, iz, nz, pz, lnz, arg, dli3, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -145,7 +145,7 @@ double complex function cdli3(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index a227a9e..b3e28c8 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -168,7 +168,7 @@ end function dli4
 double complex function cdli4(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -207,7 +207,7 @@ double complex function cdli4(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 4c274d2..b692886 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -14,7 +14,7 @@
 double complex function cdli5(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg
+  double precision :: rz, iz, nz, pz, lnz, arg, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -58,7 +58,7 @@ double complex function cdli5(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index bb2c28e..82fc057 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -14,7 +14,7 @@
 double complex function cdli6(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -59,7 +59,7 @@ double complex function cdli6(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/log.f90 b/src/fortran/log.f90
index 2708420..719468e 100644
--- a/src/fortran/log.f90
+++ b/src/fortran/log.f90
@@ -54,3 +54,23 @@ double complex function pos_cdlog(z)
   endif
 
 end function pos_cdlog
+
+
+!*********************************************************************
+!> @brief Implementation of datan2
+!> @param y y coordinate
+!> @param x x coordinate
+!> @return datan2(y, x)
+!> @note The sign of y is retained if the result underflows to zero
+!*********************************************************************
+double precision function signed_datan2(y, x)
+  implicit none
+  double precision :: y, x
+
+  signed_datan2 = datan2(y, x)
+
+  if (signed_datan2 .eq. 0 .and. y .ne. 0) then
+     signed_datan2 = sign(tiny(y), y)
+  endif
+
+end function signed_datan2
-- 
2.43.0


From 27eb957b12239846790ac7da72f0270f3822ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 17/21] fix: avoid NaN in complex Li3..Li6 if the modulus of z
 overflows

---
 src/c/Li3.c         |  4 ++--
 src/c/Li4.c         |  4 ++--
 src/c/Li5.c         |  4 ++--
 src/c/Li6.c         |  4 ++--
 src/c/log.c         | 38 ++++++++++++++++++++++++++++++++++++++
 src/c/log.h         |  6 ++++++
 src/cpp/Li3.cpp     |  4 ++--
 src/cpp/Li4.cpp     |  4 ++--
 src/cpp/Li5.cpp     |  4 ++--
 src/cpp/Li6.cpp     |  4 ++--
 src/cpp/log.hpp     | 19 +++++++++++++++++++
 src/fortran/Li3.f90 |  4 ++--
 src/fortran/Li4.f90 |  4 ++--
 src/fortran/Li5.f90 |  4 ++--
 src/fortran/Li6.f90 |  4 ++--
 src/fortran/log.f90 | 23 +++++++++++++++++++++++
 16 files changed, 110 insertions(+), 24 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index bf97151..fe8fc12 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -137,7 +137,7 @@ double _Complex cli3(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_hypot(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -269,7 +269,7 @@ long double _Complex cli3l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_hypotl(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 1ea5c38..800c7fb 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -191,7 +191,7 @@ double _Complex cli4(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_hypot(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u = lnz + pz*I; // clog(z)
@@ -329,7 +329,7 @@ long double _Complex cli4l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_hypotl(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u = lnz + pz*I; // clog(z)
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 495159b..4b87a67 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -52,7 +52,7 @@ double _Complex cli5(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_hypot(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -187,7 +187,7 @@ long double _Complex cli5l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_hypotl(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2568391..6162787 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -52,7 +52,7 @@ double _Complex cli6(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_hypot(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -192,7 +192,7 @@ long double _Complex cli6l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_hypotl(rz, iz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/log.c b/src/c/log.c
index 691ee65..0206179 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -137,3 +137,41 @@ long double signed_atan2l(long double y, long double x)
 
    return a;
 }
+
+
+/**
+ * returns log(hypot(x, y))
+ * @param x x coordinate
+ * @param y y coordinate
+ * @note The result is finite for finite x and y, even if hypot(x, y) overflows
+ * @return log(hypot(x, y))
+ */
+double log_hypot(double x, double y)
+{
+   const double h = hypot(x, y);
+
+   if (isinf(h)) {
+      return log(hypot(0.5*x, 0.5*y)) + log(2.0);
+   }
+
+   return log(h);
+}
+
+
+/**
+ * returns logl(hypotl(x, y))
+ * @param x x coordinate
+ * @param y y coordinate
+ * @note The result is finite for finite x and y, even if hypotl(x, y) overflows
+ * @return logl(hypotl(x, y))
+ */
+long double log_hypotl(long double x, long double y)
+{
+   const long double h = hypotl(x, y);
+
+   if (isinf(h)) {
+      return logl(hypotl(0.5L*x, 0.5L*y)) + logl(2.0L);
+   }
+
+   return logl(h);
+}
diff --git a/src/c/log.h b/src/c/log.h
index 9099f9d..38b615a 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -26,3 +26,9 @@ double signed_atan2(double y, double x);
 
 /** returns atan2l(y, x), retains the sign of y if the result underflows to zero */
 long double signed_atan2l(long double y, long double x);
+
+/** returns log(hypot(x, y)), avoids the overflow of hypot(x, y) */
+double log_hypot(double x, double y);
+
+/** returns logl(hypotl(x, y)), avoids the overflow of hypotl(x, y) */
+long double log_hypotl(long double x, long double y);
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index eef8e09..8746fba 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -145,7 +145,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -276,7 +276,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index 1ed8bee..2b04468 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -198,7 +198,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -326,7 +326,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index d747baa..ba85564 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -183,7 +183,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 729bbb0..a4e382f 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -189,7 +189,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/log.hpp b/src/cpp/log.hpp
index ff93f75..7707b9e 100644
--- a/src/cpp/log.hpp
+++ b/src/cpp/log.hpp
@@ -68,4 +68,23 @@ T signed_arg(const std::complex<T>& z) noexcept
 }
 
 
+/**
+ * returns log(|z|) for complex z
+ * @param z complex argument
+ * @note The result is finite for finite z, even if |z| overflows
+ * @return log(|z|)
+ */
+template <typename T>
+T log_abs(const std::complex<T>& z) noexcept
+{
+   const T nz = std::abs(z);
+
+   if (std::isinf(nz)) {
+      return std::log(std::abs(z*T(0.5))) + std::log(T(2));
+   }
+
+   return std::log(nz);
+}
+
+
 } // namespace polylogarithm
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index fcb28e0..15841d3 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -110,7 +110,7 @@ end function dli3
 double complex function cdli3(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, dli3, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, dli3, signed_datan2, dlog_hypot
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -146,7 +146,7 @@ double complex function cdli3(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_hypot(rz, iz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index b3e28c8..e387d27 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -168,7 +168,7 @@ end function dli4
 double complex function cdli4(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4, signed_datan2, dlog_hypot
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -208,7 +208,7 @@ double complex function cdli4(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_hypot(rz, iz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index b692886..f00edfe 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -14,7 +14,7 @@
 double complex function cdli5(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, signed_datan2, dlog_hypot
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -59,7 +59,7 @@ double complex function cdli5(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_hypot(rz, iz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 82fc057..225cc97 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -14,7 +14,7 @@
 double complex function cdli6(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, signed_datan2, dlog_hypot
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -60,7 +60,7 @@ double complex function cdli6(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_hypot(rz, iz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/log.f90 b/src/fortran/log.f90
index 719468e..4006f2d 100644
--- a/src/fortran/log.f90
+++ b/src/fortran/log.f90
@@ -74,3 +74,26 @@ double precision function signed_datan2(y, x)
   endif
 
 end function signed_datan2
+
+
+!*********************************************************************
+!> @brief Implementation of log(hypot(x, y))
+!> @param x x coordinate
+!> @param y y coordinate
+!> @return log(hypot(x, y))
+!> @note The result is finite for finite x and y, even if hypot(x, y)
+!> overflows
+!*********************************************************************
+double precision function dlog_hypot(x, y)
+  implicit none
+  double precision :: x, y, h
+
+  h = hypot(x, y)
+
+  if (h .gt. huge(h)) then
+     dlog_hypot = log(hypot(0.5D0*x, 0.5D0*y)) + log(2D0)
+  else
+     dlog_hypot = log(h)
+  endif
+
+end function dlog_hypot
-- 
2.43.0


From 085e6184289cf4ef1e829c0a2cb1c5b58f24ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 18/21] fix: avoid signed integer overflow in neg_eta(n) and
 zeta(n) for n = -2^63 + 1

---
 src/cpp/eta.cpp  | 2 +-
 src/cpp/zeta.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/eta.cpp b/src/cpp/eta.cpp
index c59d618..f5fb03b 100644
--- a/src/cpp/eta.cpp
+++ b/src/cpp/eta.cpp
@@ -85,7 +85,7 @@ double neg_eta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
          return NEG_ETA_NEG_N[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (is_even((n - 1)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
diff --git a/src/cpp/zeta.cpp b/src/cpp/zeta.cpp
index bd691f4..db5793d 100644
--- a/src/cpp/zeta.cpp
+++ b/src/cpp/zeta.cpp
@@ -87,7 +87,7 @@ double zeta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(ZETAS_NEG)/sizeof(ZETAS_NEG[0]))) {
          return ZETAS_NEG[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (is_even((n - 1)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
-- 
2.43.0


From eff6be6a5747671ac380ddfe958ad03b1a6e26b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:26 +0000
Subject: [PATCH 19/21] fix: avoid endless loops in Li(n,z) with directed
 rounding

With rounding upward the terms of the series never underflow to zero, and
in rounding toward zero an overflow yields the largest number instead of
infinity, so that loops over up to 2^63 terms did not end, e.g. in
Li(7, 0.75 + 5e-324 i).
---
 src/cpp/Li.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 1b30781..ac3b663 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -29,9 +29,12 @@ namespace {
 
    constexpr bool is_even(int64_t n) noexcept { return n % 2 == 0; }
 
-   constexpr bool is_finite(const std::complex<double>& z) noexcept
+   /// returns true if real and imaginary parts did not overflow (an
+   /// overflow gives max instead of infinity in rounding toward zero)
+   bool is_finite(const std::complex<double>& z) noexcept
    {
-      return std::isfinite(std::real(z)) && std::isfinite(std::imag(z));
+      constexpr double max = std::numeric_limits<double>::max();
+      return std::abs(std::real(z)) < max && std::abs(std::imag(z)) < max;
    }
 
    /// returns true if real and imaginary parts are zero or subnormal
@@ -96,8 +99,8 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
-         if (p == 0.0) { return sum; } // all remaining terms vanish
          sum += zeta(n - j)*p;
+         if (is_subnormal(p)) { return sum; } // all remaining terms are negligible
       }
 
       p *= lnz/static_cast<double>(n - 1);
@@ -113,7 +116,7 @@ namespace {
          p *= lnz2/static_cast<double>((j - 1)*j);
          const auto old_sum = sum;
          sum += zeta(n - j)*p;
-         if (sum == old_sum) { break; }
+         if (sum == old_sum || is_subnormal(p)) { break; }
       }
 
       return sum;
@@ -144,7 +147,7 @@ namespace {
       const std::complex<double> lnz = clog(z);
       const std::complex<double> lnz2 = lnz*lnz;
       const double fac = std::tgamma(1.0 - n);
-      if (std::isinf(fac)) { return { inf, inf }; } // overflow
+      if (!is_finite(fac)) { return { inf, inf }; } // overflow
       std::complex<double> sum = fac*stable_pow(-lnz, n - 1);
       std::complex<double> lnzk, sum_old, term;
       int64_t k;
@@ -184,7 +187,7 @@ namespace {
          const double j = n - 2*k;
          old_sum = sum;
          sum += neg_eta(2*k)*p;
-         if (sum == old_sum) { break; }
+         if (sum == old_sum || is_subnormal(p)) { break; }
          p *= lnz2/((j + 1)*(j + 2));
       }
 
-- 
2.43.0


From a7d0633ce11d182fd0ceb280c9b0133a9ea3172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:57 +0000
Subject: [PATCH 20/21] fix: avoid overflow in Li(-1,z) for large |z|

---
 src/cpp/Li.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index ac3b663..279d1db 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -238,7 +238,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1.0)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
-      return z/((1.0 - z)*(1.0 - z));
+      return z/(1.0 - z)/(1.0 - z);
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
-- 
2.43.0


From 4fbd56bb6e378bfa4c5b56cd0c384c59c72df9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:55 +0000
Subject: [PATCH 21/21] fix: keep accuracy of Li(n,z) if terms of the series
 are subnormal

---
 src/cpp/Li.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 279d1db..53645fa 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -37,11 +37,12 @@ namespace {
       return std::abs(std::real(z)) < max && std::abs(std::imag(z)) < max;
    }
 
-   /// returns true if real and imaginary parts are zero or subnormal
-   bool is_subnormal(const std::complex<double>& z) noexcept
+   /// returns true if real and imaginary parts underflowed (an
+   /// underflow gives small subnormals in rounding away from zero)
+   bool is_underflow(const std::complex<double>& z) noexcept
    {
-      constexpr double min = std::numeric_limits<double>::min();
-      return std::abs(std::real(z)) < min && std::abs(std::imag(z)) < min;
+      constexpr double tiny = 64*std::numeric_limits<double>::denorm_min();
+      return std::abs(std::real(z)) <= tiny && std::abs(std::imag(z)) <= tiny;
    }
 
    /// complex logarithm, converts -0.0 to 0.0
@@ -70,9 +71,10 @@ namespace {
          k++;
          sum_old = sum;
          sum += p;
-         p *= z*std::pow(k/(1.0 + k), n);
-         if (!is_finite(p)) { return { inf, inf }; } // overflow
-      } while (sum != sum_old && !is_subnormal(p) &&
+         const double r = std::pow(k/(1.0 + k), n);
+         p *= z*r;
+         if (!is_finite(r) || !is_finite(p)) { return { inf, inf }; } // overflow
+      } while (sum != sum_old && !is_underflow(p) &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
       return sum;
@@ -100,7 +102,7 @@ namespace {
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
          sum += zeta(n - j)*p;
-         if (is_subnormal(p)) { return sum; } // all remaining terms are negligible
+         if (is_underflow(p)) { return sum; } // all remaining terms are negligible
       }
 
       p *= lnz/static_cast<double>(n - 1);
@@ -116,7 +118,7 @@ namespace {
          p *= lnz2/static_cast<double>((j - 1)*j);
          const auto old_sum = sum;
          sum += zeta(n - j)*p;
-         if (sum == old_sum || is_subnormal(p)) { break; }
+         if (sum == old_sum || is_underflow(p)) { break; }
       }
 
       return sum;
@@ -187,7 +189,7 @@ namespace {
          const double j = n - 2*k;
          old_sum = sum;
          sum += neg_eta(2*k)*p;
-         if (sum == old_sum || is_subnormal(p)) { break; }
+         if (sum == old_sum || is_underflow(p)) { break; }
          p *= lnz2/((j + 1)*(j + 2));
       }
 
-- 
2.43.0

