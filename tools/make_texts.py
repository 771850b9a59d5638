#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (kept in one place so that they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
from checks import CHECKS

CPP = ["src/cpp/"]
ALL = ["src/cpp/", "src/c/", "src/fortran/"]


def files(*names):
    r = []
    for n in names:
        if n.startswith("Cl") or n == "Sl":
            r.append("src/cpp/%s.cpp" % n)
            if n in ("Cl2", "Cl3", "Cl4", "Cl5", "Cl6"):
                r += ["src/c/%s.c" % n, "src/fortran/%s.f90" % n]
            if n == "Cl1":
                pass
        else:
            r.append("src/cpp/%s.cpp" % n)
            if n != "Li":
                r += ["src/c/%s.c" % n, "src/fortran/%s.f90" % n]
    return r


T = []


def P(id, title, statement, over, quant, why, fs, mech, observe):
    T.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": fs, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})


POINTS = "The tests evaluate a few hundred tabulated or random points per function; a wrong branch, coefficient or boundary that acts on another part of the range is not reached."

P("C01", "Real dilogarithm is accurate on the whole real line",
  "For every finite real x the real dilogarithm returns Re Li2(x) with an error of at most 40 machine epsilons (16 in single precision) relative to |Li2(x)|; for x > 2, where the value passes through zero, relative to |Li2(x)| + |ln(x-1)|. "
  "This holds in single, double and long double precision and in C++, C and Fortran alike.",
  ["inputs"], "all finite x of the float, double and long double formats, 3 languages",
  POINTS, files("Li2"), [("transformation to [0, 1/2] by inversion and reflection", "src/cpp/Li2.cpp"), ("rational approximation", "src/cpp/Li2.cpp")],
  ["Li2(float)", "Li2(double)", "Li2(long double)", "li2f", "li2", "li2l", "dli2"])
P("C02", "Complex dilogarithm is accurate in the whole complex plane",
  "For every complex z with finite modulus the complex dilogarithm returns Li2(z) with an error of at most 40 machine epsilons (16 in single precision) relative to |Li2(z)|, on the principal branch and with the value from below on the cut. "
  "This includes tiny, huge and nearly real arguments, in single, double and long double precision and in C++, C and Fortran.",
  ["inputs"], "all complex z of the three formats with representable modulus", POINTS, files("Li2"),
  [("choice among five regions with transformations", "src/cpp/Li2.cpp"), ("Bernoulli series", "src/cpp/Li2.cpp")], ["Li2(complex)", "cli2f", "cli2", "cli2l", "cdli2"])
P("C03", "Real Li3 and Li4 are accurate on the whole real line",
  "For every finite real x the real functions Li3 and Li4 return the real part of the polylogarithm with an error of at most 50 machine epsilons (400 for Li4 at x or 1/x between 1/2 and 4/5) relative to its modulus or, near a zero of the real part above x = 1, relative to the terms of the inversion formula. "
  "This holds in C++, C and Fortran.",
  ["inputs"], "all finite doubles x", POINTS, files("Li3", "Li4"), [("transformation to a base interval and rational approximations", "src/cpp/Li3.cpp, src/cpp/Li4.cpp")], ["Li3(double)", "Li4(double)", "li3", "li4", "dli3", "dli4"])
P("C04", "Complex Li3 to Li6 are accurate in the whole complex plane",
  "For every complex z whose modulus and argument are representable, Li3, Li4, Li5 and Li6 return the value on the principal branch with an error of at most 50 machine epsilons in double and 100 in long double precision relative to its modulus (400 for Li4 in double precision at real arguments with z or 1/z between 1/2 and 4/5). "
  "This includes tiny, huge and nearly real arguments and the neighbourhood of z = 1, in double and long double precision and in C++, C and Fortran.",
  ["inputs"], "all complex z in double and long double precision", POINTS, files("Li3", "Li4", "Li5", "Li6"),
  [("expansion about z = 1, series in -log(1-z), inversion for |z| > 1", "src/cpp/Li3.cpp .. Li6.cpp")], ["Li3..Li6(complex)", "cli3..cli6, cli3l..cli6l", "cdli3..cdli6"])
P("C05", "Li(n,z) is accurate for every positive order",
  "For every integer order n >= 1 and every complex z with representable modulus and argument, Li(n,z) equals the polylogarithm on the principal branch with an error of at most 50 machine epsilons relative to its modulus (for n > 6, 50 + 2 ln|z| if |z| > 1; for n = 4 and real z with z or 1/z between 1/2 and 4/5, 400), except at the pole z = 1 of n = 1.",
  ["inputs"], "all n >= 1 and all complex double z", "The tests use tables for some tens of orders and points; each order has its own region boundaries and truncation.", ["src/cpp/Li.cpp"],
  [("series, expansion about unity, inversion", "src/cpp/Li.cpp"), ("zeta, eta, factorial, harmonic numbers", "src/cpp/zeta.hpp, eta.hpp, factorial.hpp, harmonic.hpp")], ["Li(int64_t, complex<double>)"])
P("C06", "Li(n,z) is accurate for zero and negative orders",
  "For every integer order -150 <= n <= 0 and every complex z with representable modulus, Li(n,z) equals the rational function (z d/dz)^|n| of z/(1-z) with an error of at most 40 (1 + n^2/1000) machine epsilons relative to its modulus plus the conditioning with respect to ln z (that is, max(1,|ln z|) times the modulus of Li(n-1,z)), unless the exact value overflows or underflows. "
  "For n < -150 the result is that accurate, or it is infinite because an intermediate value overflowed.",
  ["inputs"], "all n <= 0 and all complex double z", "The tests use tables for some orders and points; cancellations, truncations and overflows depend on the order and the region.", ["src/cpp/Li.cpp"],
  [("series, expansion about unity for negative order, inversion", "src/cpp/Li.cpp")], ["Li(int64_t, complex<double>)"])
P("C07", "Clausen functions Cl1 to Cl6 are accurate for every angle",
  "For every finite angle x whose rounding does not exceed a small fraction of the period, Cl1 to Cl6 return the Clausen function with an error of at most 50 (double) or 300 (long double) machine epsilons relative to its size plus the change of the function under a few roundings of the angle: of x itself, or, within a quarter of a turn of 0 and 2 pi, of the distance from there. "
  "This holds in C++, C and Fortran.",
  ["inputs"], "all finite double and long double angles with significant digits modulo 2 pi", POINTS, files("Cl1", "Cl2", "Cl3", "Cl4", "Cl5", "Cl6"),
  [("range reduction to [0, pi] and rational approximations", "src/cpp/Cl2.cpp .. Cl6.cpp")], ["Cl1..Cl6", "cl2..cl6, cl2l..cl6l", "dcl2..dcl6"])
P("C08", "Cl(n,x) is accurate for every order and angle",
  "For every order n >= 1 and every finite angle x with significant digits modulo 2 pi, Cl(n,x) equals the Clausen function of order n with an error of at most 50 (n <= 6), 300 (n = 7 to 11) or 60 (n > 11) machine epsilons relative to its size plus the change of the function under a few roundings of the angle: of x itself, or, within a quarter of a turn of 0 and 2 pi, of the distance from there.",
  ["inputs"], "all n >= 1 and all finite double angles", "The tests cover few orders and points; the method changes with the order and the parity of the order.", ["src/cpp/Cl.cpp"],
  [("polynomial coefficients, recursion and series", "src/cpp/Cl.cpp")], ["Cl(int64_t, double)"])
P("C09", "Sl(n,x) is accurate for every order and angle",
  "For every order n >= 1 and every finite angle x with significant digits modulo 2 pi, Sl(n,x) equals the Glaisher function of order n with an error of at most 50 (n <= 6) or 40 (n > 6) machine epsilons relative to its size plus the change of the function under a few roundings of the angle: of x itself, or, within a quarter of a turn of 0 and 2 pi, of the distance from there.",
  ["inputs"], "all n >= 1 and all finite double angles", "The tests cover orders and points of a table; the polynomial and the series branch depend on the order.", ["src/cpp/Sl.cpp"],
  [("closed polynomials and Fourier series", "src/cpp/Sl.cpp")], ["Sl(int64_t, double)"])
P("C10", "Clausen and Glaisher functions: parity, periodicity and bounds",
  "For every finite angle and every order, the Clausen and Glaisher functions are even or odd in the angle as their definition demands (to within 4 machine epsilons), repeat with the period 2 pi as far as the angle determines its position in the period, and never return NaN or a value outside the exact range of the function (only Cl1 is unbounded, towards +infinity at multiples of 2 pi).",
  ["inputs"], "all finite angles, all orders, 3 languages, double and long double", "Parity and boundedness are checked by the tests at the tabulated points only, and huge angles hardly at all.", ["src/cpp/Cl.cpp", "src/cpp/Sl.cpp", "src/cpp/Cl1.cpp", "src/cpp/Cl2.cpp", "src/cpp/Cl6.cpp", "src/c/Cl2.c", "src/fortran/Cl2.f90"],
  [("sign bookkeeping in the range reduction", "src/cpp/Cl2.cpp .. Cl6.cpp, src/c, src/fortran")], ["all cl and sl functions"])
P("C11", "Special points: zeros keep their sign, real arguments give real results",
  "Every polylogarithm returns the (signed) zero argument itself at z = 0, and every odd Clausen or Glaisher function returns its signed zero angle; the even ones return zeta(n) (Cl1: +infinity). "
  "For real z at or below 1 a complex polylogarithm is real (orders 0 to 6 exactly, other orders within the accuracy bound), and the sign of a zero imaginary part is retained by Li2 in every precision and by Li3 and Li4 in double precision for moderate |z|. "
  "The odd functions have the sign of the angle inside (-pi, pi) and vanish at pi up to rounding.",
  ["inputs"], "all functions, all orders, both signs of zero, all real arguments", "The tests look at signed zeros for some functions only and at few real arguments.", ALL,
  [("special cases for real arguments", "src/cpp/Li2.cpp, Li3.cpp, Li4.cpp, Li.cpp")], ["all functions"])
P("C12", "Branch cut: value from below, continuous on both sides",
  "On the cut (Im z = 0, Re z > 1) every complex polylogarithm of order n >= 1 returns the limit from below with Im = -pi ln(z)^(n-1)/(n-1)!, for both signs of the zero imaginary part, with the imaginary part accurate to 100(n+1) machine epsilons of itself for n <= 6 and of the modulus otherwise. "
  "For arguments next to the cut the result tends to this value from below and to its complex conjugate from above.",
  ["inputs"], "all Re z > 1, both zeros, arbitrarily small |Im z| of both signs", "The tests check a few points on the cut; the limit from either side is not tested.", files("Li2", "Li3", "Li4", "Li5", "Li6", "Li"),
  [("sign of the imaginary part of logarithms", "src/cpp/log.hpp, src/c/log.c, src/fortran/log.f90 and the special cases of the functions")], ["all complex polylogarithms"])
P("C13", "Conjugate arguments give conjugate results",
  "Away from the cut every complex polylogarithm satisfies Li_n(conj z) = conj Li_n(z) up to 16 machine epsilons of the modulus (100 for orders outside 0..6), and non-finite results appear alike for both.",
  ["inputs"], "all z off the cut, all orders", "The tests compare values in one half plane mostly.", files("Li2", "Li3", "Li4", "Li5", "Li6", "Li"), [("treatment of the sign of the imaginary part", "src/cpp/*.cpp")], ["all complex polylogarithms"])
P("C14", "Languages and precisions agree",
  "The C and Fortran functions return what the C++ functions of the same precision return, up to 60 machine epsilons (400 for Li4 at real arguments with z or 1/z between 1/2 and 4/5) and with infinities and NaN alike, and each function agrees with that of the next higher precision within its accuracy bound.",
  ["inputs"], "all inputs of every function that exists in more than one language or precision", "Each language is tested with its own few points; nothing compares them on the whole range.", ALL,
  [("three separate implementations of the same algorithms", "src/cpp, src/c, src/fortran")], ["all functions"])
P("C15", "General-order and dedicated functions agree",
  "Li(n,z) for n = 2..6 and Cl(n,x) for n = 1..6 agree with the dedicated functions of that order, and the complex Li2, Li3 and Li4 agree on the real axis with the real functions in the real part, up to 60 machine epsilons (400 for the real Li4 at x or 1/x between 1/2 and 4/5).",
  ["inputs"], "all z and x, orders 1 to 6", "The tests compare them at the tabulated points only.", ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Li2.cpp", "src/cpp/Li3.cpp", "src/cpp/Li4.cpp"], [("dispatch on the order", "src/cpp/Li.cpp, src/cpp/Cl.cpp")], ["Li", "Cl", "Li2..Li6", "Cl1..Cl6"])
P("C16", "Functional equations hold between results",
  "Li_n on the unit circle agrees with the Clausen and Glaisher functions (n = 1..64), and results satisfy Li_n(z) + Li_n(-z) = 2^(1-n) Li_n(z^2) and the inversion formula between z and 1/z (n <= 40), up to the accuracy bounds of the functions and the rounding of the transformed argument.",
  ["inputs"], "all z with representable transformed argument; orders -100 and above", "The tests check such identities for a few functions at few points.", ["src/cpp/"], [("different regions and methods for z, -z, z^2, 1/z", "src/cpp/*.cpp")], ["all complex polylogarithms", "Cl", "Sl"])
P("C17", "NaN and infinities only where the argument demands them",
  "A NaN argument gives a result with a NaN part, an infinite angle gives NaN, an infinite argument of a polylogarithm of positive order gives a non-finite result, and Cl and Sl of an order below 1 give NaN. "
  "A finite argument gives a finite result whenever the exact value is representable and is not the pole z = 1 of an order n <= 1 (or next to a pole of Cl1 by less than a few roundings).",
  ["inputs"], "all functions, all orders including the extreme 64-bit ones, all arguments", "The tests try a handful of special values for some functions.", ALL, [("guards for special values, scaling of moduli", "src/cpp/*.cpp")], ["all functions"])
P("C18", "Every call terminates promptly and without undefined behaviour",
  "For every 64-bit order and every argument, including infinities, NaN, subnormal and extreme numbers, every function returns after a bounded amount of work (bounded by a constant independent of order and argument) and executes no undefined behaviour: no integer overflow, invalid conversion, invalid shift, out-of-bounds or uninitialized access.",
  ["inputs"], "all functions, all 64-bit orders, all arguments", "The tests call the functions with ordinary orders and arguments and without sanitizers.", ALL, [("loops with data-dependent exits, table lookups by order, conversions of the order", "src/cpp/Li.cpp, Cl.cpp, Sl.cpp, zeta.cpp, eta.cpp, factorial.cpp, harmonic.cpp")], ["all functions"])
P("C19", "Calls are pure: no dependence on history, threads or environment",
  "The result of a call depends on its arguments only: the same call gives the same bits after any history of other calls and in any interleaving with calls in other threads. "
  "No call modifies its arguments, leaves the floating-point environment, global memory or other library state changed in a way a later call can observe, or races with a concurrent call on common memory.",
  ["histories", "schedules"], "all sequences of calls and all interleavings of concurrent calls", "The tests run single calls in one order in one thread.", ALL, [("absence of writable static data; constant tables; call by reference in Fortran", "src/cpp, src/c, src/fortran")], ["all functions"])
P("C20", "Zeta and eta values at the integers",
  "Li(n,1) = zeta(n) for n >= 2 and is infinite below, Li(n,-1) is minus the alternating zeta value for every 64-bit order n, including exact zeros for negative even n and the signed overflow for large negative odd n, and the even Clausen and Glaisher functions return these values at the angles 0 and pi. "
  "The error is at most 16 (polylogarithms) or 60 machine epsilons.",
  ["inputs"], "all orders -2000 to 5000, around powers of two and at the ends of the 64-bit range", "The tests check the tabulated orders.", ["src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"], [("tables of zeta and eta values and their asymptotic continuation", "src/cpp/zeta.cpp, src/cpp/eta.cpp")], ["Li", "Cl", "Sl", "all fixed-order functions"])
P("C21", "Monotonicity, continuity across internal seams, bounds",
  "Up to the accuracy bounds, real polylogarithms of order >= 2 increase on (-infinity, 1] with no jump steeper than their derivative allows, |Li_n(z)| <= Li_n(|z|) inside the unit disk, Li_n(x) is ordered in n on (-1, 1), and no function jumps between two adjacent arguments at which the implementation switches its method.",
  ["inputs"], "all neighbouring arguments on the real axis, all switches of method, all orders", "The tests do not look at the seams between the regions of the implementation.", ALL, [("boundaries between series, approximations and transformations", "src/cpp/*.cpp, src/c/*.c, src/fortran/*.f90")], ["all functions"])
P("C22", "Quadruple precision where long double has it",
  "Where long double has quadruple precision (LDBL_DIG > 18), the long double polylogarithms Li2 to Li6 and Cl2 of C++ and C are accurate to a fixed number of machine epsilons 2^-112 (100 for Li2, 40 for Li3 to Li6, 300 for Cl2, relative to the modulus or, for angles, the value and the conceded uncertainty of the angle), Cl3 to Cl6 to 24 digits, and the results are finite and respect conjugation and parity.",
  ["inputs"], "all real and complex arguments, all angles, in the configuration LDBL_DIG > 18", "The tests are built with the long double of the machine; the code for LDBL_DIG > 18 (longer tables of coefficients and more terms) is not even compiled.", files("Li2", "Li3", "Li4", "Li5", "Li6", "Cl2", "Cl3", "Cl4", "Cl5", "Cl6"),
  [("code selected by LDBL_DIG > 18", "src/cpp/Li2.cpp to Li6.cpp, src/c/Li2.c to Li6.c")], ["Li2..Li6 (long double)", "Cl2..Cl6 (long double)", "cli2l..cli6l, li2l, cl2l..cl6l"])

P("C23", "Every rounding direction and underflow mode",
  "In every rounding direction (to nearest, upward, downward, toward zero), with gradual underflow or with subnormal numbers flushed to zero, every call returns promptly. "
  "For arguments whose parts are zero or of moderate size (between the fourth root of the smallest normal number and its inverse, more than 64 machine epsilons away from a pole) the result stays within 1024 (general polylogarithm: 4096) machine epsilons of the exact value, relative to the larger of 1 and the scale of the accuracy bound.",
  ["inputs", "floating-point environments"], "all functions, orders and arguments, 8 floating-point environments", "The tests run in the default environment only.", ALL, [("loops that end when a sum does not change or a term vanishes; range reductions", "src/cpp/Li.cpp, Cl.cpp, Sl.cpp"), ("argument transformations", "src/cpp/*.cpp, src/c/*.c, src/fortran/*.f90")], ["all functions"])
P("C24", "No spurious floating-point exceptions",
  "A call that returns a finite result raises neither the exception invalid nor the exception division-by-zero, whatever its argument, and does not raise overflow if the order is at most 300 in modulus and the parts of the argument are zero or of moderate size (between the fourth root of the smallest normal number and its inverse). "
  "Programs that enable traps for these exceptions (gfortran -ffpe-trap=invalid,zero,overflow) can therefore call all functions.",
  ["inputs"], "all functions, orders and arguments", "The tests do not look at the exception flags.", ALL, [("argument transformations and special cases before them", "src/cpp/*.cpp, src/c/*.c, src/fortran/*.f90"), ("conversions to integer in the range reductions, large orders", "src/cpp/Cl.cpp, Sl.cpp, Li.cpp, zeta.hpp, eta.hpp")], ["all functions"])
P("C25", "Independence of compiler and optimization",
  "Compiled without optimization or with -O3, with or without contraction of products and sums into fused multiply-adds, by gcc or (C++) clang, for processors with or without these instructions, or (C and C++) with intermediate results kept in extended precision, every call returns, and every function stays within twice the error bounds of C01 to C09.",
  ["inputs", "compilers and options"], "all functions, orders and arguments, 4 other builds", "The tests see the one build they are linked with.", ALL, [("evaluation order, exact differences, conditional compilation", "src/cpp/*.cpp, src/c/*.c, src/fortran/*.f90"), ("range reductions", "src/cpp/Cl.cpp, Sl.cpp, Cl2.cpp")], ["all functions"])

NOT_YET = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in T:
            for x in p["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "./run setup", "checks": [], "not_applicable": [],
         "notes": "No hooks: the checks build the sources of /repo unchanged, with compiler instrumentation, in a scratch directory. properties.jsonl and this file are written by tools/make_texts.py."}
    for p in T:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": "./run check %s quick" % i, "thorough_cmd": "./run check %s thorough" % i,
                                "technique": c["technique"], "level": c["level"],
                                "level_note": "Exhaustive over the enumerated finite space: " + c["explanation"] + ". Assumes: " + "; ".join(c["assumptions"]) + "."})
        else:
            m["not_applicable"].append({"property": i, "reason": NOT_YET[i]})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
