#!/usr/bin/env python3-vt
"""Generates engine/consts.inc (zeta values for the reference model) with mpmath at 60 digits."""
import mpmath as mp
mp.mp.dps = 60
out = ["// generated by tools/gen_consts.py (mpmath, 60 digits); reference-model constants"]
out.append("#define REF_ZPOS_N 130")
out.append("static const __float128 REF_ZPOS[130] = { /* zeta(n), n = 0..129; zeta(1) unused */")
for n in range(130):
    v = mp.mpf(0) if n == 1 else mp.zeta(n)
    out.append("   %sQ," % mp.nstr(v, 42, min_fixed=0, max_fixed=0))
out.append("};")
out.append("#define REF_ZNEG_N 160")
out.append("static const __float128 REF_ZNEG[160] = { /* zeta(1-2j), j = 1..160 */")
for j in range(1, 161):
    out.append("   %sQ," % mp.nstr(mp.zeta(1 - 2*j), 42, min_fixed=0, max_fixed=0))
out.append("};")
out.append("static const __float128 REF_PI = %sQ;" % mp.nstr(mp.pi, 42))
pi_hi = mp.pi
out.append("")
open("/verif/engine/consts.inc", "w").write("\n".join(out))
# the same constants as strings, for the reference of the quadruple precision functions (engine/p_quad.cpp)
mp.mp.dps = 100
out = ["// generated by tools/gen_consts.py (mpmath, 100 digits)"]
out.append('static const char* const HP_PI = "%s";' % mp.nstr(mp.pi, 80))
out.append("static const char* const HP_ZPOS[180] = { /* zeta(n), n = 0..179; zeta(1) unused */")
for n in range(180):
    v = mp.mpf(0) if n == 1 else mp.zeta(n)
    out.append('   "%s",' % mp.nstr(v, 80, min_fixed=0, max_fixed=0))
out.append("};")
out.append("static const char* const HP_ZNEG[160] = { /* zeta(1-2j), j = 1..160 */")
for j in range(1, 161):
    out.append('   "%s",' % mp.nstr(mp.zeta(1 - 2*j), 80, min_fixed=0, max_fixed=0))
out.append("};")
out.append("")
open("/verif/engine/consts_hp.inc", "w").write("\n".join(out))
