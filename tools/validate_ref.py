#!/usr/bin/env python3-vt
"""Compares the C++ reference model with mpmath (50+ digits). Development-time check of the oracle."""
import subprocess, sys, os, mpmath as mp
here = os.path.dirname(os.path.abspath(__file__))
exe = "/tmp/refdump.%d" % os.getpid()
subprocess.check_call(["g++", "-O2", "-std=gnu++17", here + "/refdump.cpp", "-o", exe, "-lquadmath"])
out = subprocess.check_output([exe], text=True)
os.unlink(exe)
mp.mp.dps = 50
worst = {}
def neg(m, z):
    mp.mp.dps = 120 + 2*m
    A = [mp.mpf(1)]
    for mm in range(2, m+1):
        B = []
        for k in range(mm):
            v = mp.mpf(0)
            if k < mm-1: v += (k+1)*A[k]
            if k >= 1: v += (mm-k)*A[k-1]
            B.append(v)
        A = B
    s = mp.mpf(0)
    for k in range(m-1, -1, -1): s = s*z + A[k]
    r = z*s/(1-z)**(m+1)
    return r
n_cmp = 0
for line in out.splitlines():
    f = line.split()
    n = int(f[1]); x = mp.mpf(float.fromhex(f[2])); y = mp.mpf(float.fromhex(f[3]))
    mp.mp.dps = 60
    got = mp.mpc(mp.mpf(f[4]), mp.mpf(f[5])); est = float(f[6])
    if f[0] == "L":
        z = mp.mpc(x, y)
        if z == 0: continue
        if n <= 0:
            want = z/(1-z) if n == 0 else neg(-n, z)
        else:
            if abs(z) > 2 and n >= 2:
                # inversion at high precision
                mp.mp.dps = 400
                if y == 0 and x > 1: l = mp.log(x) + 1j*mp.pi
                elif y == 0: l = mp.mpc(mp.log(-x))
                else: l = mp.log(-z)
                s = (-1)**(n-1)*sum(((1/z)**k)/mp.mpf(k)**n for k in range(1, 400 if abs(z) < 10 else 150 if abs(z) < 1e3 else 20))
                for k in range(1, n//2+1):
                    s += 2*(-(1-mp.mpf(2)**(1-2*k))*mp.zeta(2*k))*l**(n-2*k)/mp.factorial(n-2*k)
                s -= l**n/mp.factorial(n)
                want = s
            else:
                mp.mp.dps = 60
                if n == 1: want = -mp.log(1-z)
                else: want = mp.polylog(n, z)
                if y == 0 and x > 1: want = mp.mpc(want.real, -mp.pi*mp.log(x)**(n-1)/mp.factorial(n-1))
            if y == 0 and x <= 1: want = mp.mpc(want.real, 0)
    elif f[0] == "C":
        mp.mp.dps = 60
        if n == 1:
            want = mp.mpc(-mp.log(2*mp.sin(x/2)), (mp.pi-x)/2)
        else:
            c = mp.clcos(n, x); s = mp.clsin(n, x)
            want = mp.mpc(s, c) if n % 2 == 0 else mp.mpc(c, s)
    else:
        want = mp.mpc(mp.harmonic(n), 0)
    d = abs(got - want)/(abs(want) if want != 0 else 1)
    cre = abs(got.real-want.real)/abs(want.real) if want.real != 0 else abs(got.real)
    cim = abs(got.imag-want.imag)/abs(want.imag) if want.imag != 0 else abs(got.imag)
    n_cmp += 1
    key = (f[0], n)
    if d > worst.get(key, (0,))[0]: worst[key] = (float(d), float(cre), float(cim), f[2], f[3], est)
    if n <= 0 and d > 50*est: print("UNDERESTIMATED", line, float(d))
bad = 0
for k, v in sorted(worst.items()):
    flag = "" if v[0] < 1e-24 else "  <<<"
    if flag: bad += 1
    print(k, v, flag)
print("compared", n_cmp, "bad", bad)
sys.exit(bad != 0)
