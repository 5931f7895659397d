#!/usr/bin/env python3
"""Field elements u whose simplified-SWU image is a kernel point of the isogeny (or for which the map is exceptional).
Prints u values (hex) for G1 and G2: used as alphabet entries of the hash-to-curve check."""
import sys, io, contextlib
src = open(__file__.replace("exceptional_u.py", "derive_iso.py")).read().split('out = "// generated')[0]
exec(src)
def sqrtp(v, K, q):
    if not v: return [v]
    return roots([-v, K(0), K(1)], K, q)
def solve(A, B, Z, K, q, kers):
    res = []
    for x0 in kers:
        c = x0 * A * (-B).inv() - 1            # 1/(t^2+t) = c   (case x1)
        ts = []
        if c:
            ts += [("x1", t) for t in roots([-(c.inv()), K(1), K(1)], K, q)]
        # case x2 = t*x1 = -B/A * (t + 1/(t+1)) = x0 -> t(t+1)+1 = k (t+1)
        k = x0 * A * (-B).inv()
        ts += [("x2", t) for t in roots([K(1) - k, K(1) - k, K(1)], K, q)]
        for w, t in ts:
            for u in sqrtp(t * Z.inv(), K, q):
                tt = Z * u * u; x1 = (-B) * A.inv() * (K(1) + (tt * tt + tt).inv()) if (tt * tt + tt) else None
                g = (x1 * x1 + A) * x1 + B; sq = (g ** ((q - 1) // 2)) == 1 or not g
                x = x1 if sq else tt * x1
                res.append((w, sq, x == x0, u))
    return res
A1 = F1(0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d)
B1 = F1(0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0)
for w, sq, hit, u in solve(A1, B1, F1(11), F1, p, roots(divpol(11, A1, B1), F1, p)): print("G1 kernel", w, "reached" if hit else "-", "%096x" % u.a)
for u in sqrtp(-(F1(11).inv()), F1, p): print("G1 exceptional %096x" % u.a)
A2, B2, Z2 = F2(0, 240), F2(1012, 1012), F2(-2, -1)
for w, sq, hit, u in solve(A2, B2, Z2, F2, p * p, roots(divpol(3, A2, B2), F2, p * p)): print("G2 kernel", w, "reached" if hit else "-", "%096x %096x" % (u.a, u.b))
for u in sqrtp(-(Z2.inv()), F2, p * p): print("G2 exceptional %096x %096x" % (u.a, u.b))
