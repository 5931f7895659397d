#!/usr/bin/env python3
"""Derives the 11-isogeny E1' -> E1 and the 3-isogeny E2' -> E2 used by hash-to-curve from first principles (division
polynomial, Kohel/Velu formulas), checks the defining identity, prints them as lib/iso.inc.  The free choice of
automorphism of the codomain is fixed by the two leading published coefficients of RFC 9380 (appendix E.2/E.3)."""
import sys
p = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
class F2:
    __slots__ = ("a", "b")
    def __init__(s, a, b=0): s.a = a % p; s.b = b % p
    def __add__(s, o): o = c2(o); return F2(s.a + o.a, s.b + o.b)
    __radd__ = __add__
    def __neg__(s): return F2(-s.a, -s.b)
    def __sub__(s, o): o = c2(o); return F2(s.a - o.a, s.b - o.b)
    def __rsub__(s, o): return c2(o) - s
    def __mul__(s, o): o = c2(o); return F2(s.a * o.a - s.b * o.b, s.a * o.b + s.b * o.a)
    __rmul__ = __mul__
    def __eq__(s, o): o = c2(o); return s.a == o.a and s.b == o.b
    def inv(s): n = pow(s.a * s.a + s.b * s.b, -1, p); return F2(s.a * n, -s.b * n)
    def __pow__(s, e):
        r, b = F2(1), s
        while e:
            if e & 1: r = r * b
            b = b * b; e >>= 1
        return r
    def __bool__(s): return bool(s.a or s.b)
def c2(x): return x if isinstance(x, F2) else F2(x)
class F1:
    __slots__ = ("a",)
    def __init__(s, a): s.a = a % p
    def __add__(s, o): return F1(s.a + c1(o).a)
    __radd__ = __add__
    def __neg__(s): return F1(-s.a)
    def __sub__(s, o): return F1(s.a - c1(o).a)
    def __rsub__(s, o): return F1(c1(o).a - s.a)
    def __mul__(s, o): return F1(s.a * c1(o).a)
    __rmul__ = __mul__
    def __eq__(s, o): return s.a == c1(o).a
    def inv(s): return F1(pow(s.a, -1, p))
    def __pow__(s, e): return F1(pow(s.a, e, p))
    def __bool__(s): return bool(s.a)
def c1(x): return x if isinstance(x, F1) else F1(x)
def trim(f):
    while f and not f[-1]: f.pop()
    return f
def padd(f, g):
    n = max(len(f), len(g)); z = (f or g)[0] * 0 if (f or g) else 0
    return trim([(f[i] if i < len(f) else z) + (g[i] if i < len(g) else z) for i in range(n)])
def pneg(f): return [-c for c in f]
def psub(f, g): return padd(f, pneg(g))
def pmul(f, g):
    if not f or not g: return []
    r = [f[0] * 0] * (len(f) + len(g) - 1)
    for i, a in enumerate(f):
        if a:
            for j, b in enumerate(g): r[i + j] = r[i + j] + a * b
    return trim(r)
def pscal(f, k): return trim([c * k for c in f])
def pdivmod(f, g):
    f = list(f); q = [f[0] * 0] * max(0, len(f) - len(g) + 1); iv = g[-1].inv()
    while len(f) >= len(g):
        c = f[-1] * iv; k = len(f) - len(g); q[k] = c
        for i, b in enumerate(g): f[k + i] = f[k + i] - c * b
        trim(f)
        if not f: break
    return trim(q), f
def pgcd(f, g):
    while g: f, g = g, pdivmod(f, g)[1]
    return pscal(f, f[-1].inv())
def ppowmod(b, e, m):
    r = [b[0] * 0 + 1]; b = pdivmod(b, m)[1] if len(b) >= len(m) else b
    while e:
        if e & 1: r = pdivmod(pmul(r, b), m)[1]
        b = pdivmod(pmul(b, b), m)[1]; e >>= 1
    return r
def pder(f): return trim([c * i for i, c in enumerate(f)][1:])
def pev(f, x):
    r = x * 0
    for c in reversed(f): r = r * x + c
    return r
def divpol(n, a, b):
    """psi_n for odd n, and psi_n / (2y) for even n, as polynomials in x"""
    one = a * 0 + 1; f = [b, a, a * 0, one]; F = pscal(f, one * 4); memo = {0: [], 1: [one], 2: [one],
        3: trim([-(a * a), b * 12, a * 6, a * 0, one * 3]),
        4: pscal(trim([-(b * b * 8) - a * a * a, -(a * b * 4), -(a * a * 5), b * 20, a * 5, a * 0, one]), one * 2)}
    def P(n):
        if n in memo: return memo[n]
        m = n // 2
        if n & 1:
            l = pmul(P(m + 2), pmul(P(m), pmul(P(m), P(m)))); r = pmul(P(m - 1), pmul(P(m + 1), pmul(P(m + 1), P(m + 1))))
            F2_ = pmul(F, F)
            if m % 2 == 0: l = pmul(l, F2_)
            else: r = pmul(r, F2_)
            v = psub(l, r)
        else:
            v = pmul(P(m), psub(pmul(P(m + 2), pmul(P(m - 1), P(m - 1))), pmul(P(m - 2), pmul(P(m + 1), P(m + 1)))))
        memo[n] = v; return v
    return P(n)
def kohel(a, b, h):
    one = a * 0 + 1; n = len(h) - 1; l = 2 * n + 1
    s1 = -h[n - 1]; s2 = h[n - 2] if n >= 2 else a * 0; s3 = -h[n - 3] if n >= 3 else a * 0
    p1 = s1; p2 = s1 * s1 - s2 * 2; p3 = s1 * s1 * s1 - s1 * s2 * 3 + s3 * 3
    v = p2 * 6 + a * 2 * n; w = (p3 * 4 + a * p1 * 4 + b * 4 * n) + (p3 * 6 + a * p1 * 2)
    A = a - v * 5; B = b - w * 7
    f = [b, a, a * 0, one]; f1 = pder(f); h1 = pder(h); h2 = pder(h1)
    num = psub(pmul([-(s1 * 2), one * l], pmul(h, h)), pscal(pmul(f1, pmul(h1, h)), one * 2))
    num = psub(num, pscal(pmul(f, psub(pmul(h2, h), pmul(h1, h1))), one * 4))
    den = pmul(h, h)
    # Y = y * X' = y * (num' h - 2 num h') / h^3
    yn = psub(pmul(pder(num), h), pscal(pmul(num, h1), one * 2)); yd = pmul(den, h)
    return A, B, num, den, yn, yd
def identity(a, b, A, B, num, den, yn, yd):
    one = a * 0 + 1; f = [b, a, a * 0, one]
    # f yn^2 / yd^2 == (num^3 + A num den^2 + B den^3)/den^3
    L = pmul(pmul(f, pmul(yn, yn)), pmul(den, pmul(den, den)))
    R = pmul(padd(padd(pmul(num, pmul(num, num)), pscal(pmul(num, pmul(den, den)), A)), pscal(pmul(den, pmul(den, den)), B)), pmul(yd, yd))
    return psub(L, R) == []
def roots(f, K, q):
    """all roots in the field of order q of squarefree-split part"""
    x = [K(0), K(1)]; g = pgcd(f, psub(ppowmod(x, q, f), x)); out = []
    def split(g, s=1):
        if len(g) == 1: return
        if len(g) == 2: out.append(-(g[0] * g[1].inv())); return
        t = s
        while True:
            h = pgcd(g, psub(ppowmod([K(t) if K is F1 else F2(t, t * t + 1), K(1)], (q - 1) // 2, g), [K(1)])); t += 1
            if 1 < len(h) < len(g): split(h, t); split(pscal(pdivmod(g, h)[0], K(1)), t); return
    split(g); return out
def sixth_roots(c, K, q):
    return roots(trim([-c] + [K(0)] * 5 + [K(1)]), K, q)
def emit(name, f, two):
    def e(c): return "fhex(\"%096x\")" % c
    T = "F2" if two else "Fe"
    items = ",\n  ".join(("{%s, %s}" % (e(c.a), e(c.b))) if two else e(c.a) for c in f)
    return "inline const %s (&%s())[%d] { static const %s k[%d] = {\n  %s}; return k; }\n" % (T, name, len(f), T, len(f), items)
out = "// generated by tools/derive_iso.py: coefficients (low degree first) of the isogenies E1' -> E1 and E2' -> E2\n"
A1 = F1(0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d)
B1 = F1(0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0)
psi = divpol(11, A1, B1); assert len(psi) == 61
x = [F1(0), F1(1)]
xp = ppowmod(x, p, psi); cand = []
rs = roots(psi, F1, p); print("G1: rational x-roots of psi_11:", len(rs), file=sys.stderr)
# group the rational roots into subgroups {x(iP)}: closed under doubling
def xdbl(x0, a, b): return ((x0 * x0 - a) * (x0 * x0 - a) - b * x0 * 8) * ((x0 * x0 * x0 + a * x0 + b) * 4).inv()
done = []; ker = []
for r in rs:
    if any(r == d for d in done): continue
    g = [r]
    while True:
        n = xdbl(g[-1], A1, B1)
        if any(n == q for q in g): break
        g.append(n)
    done += g; ker.append(g)
print("subgroups with rational x:", [len(k) for k in ker], file=sys.stderr)
if not ker:
    f5 = psi; e = x
    for i in range(5): e = ppowmod(x, p ** (i + 1), psi) if i == 0 else None or ppowmod(x, p ** (i + 1), psi)
    g = pgcd(psi, psub(e, x)); ker = [g]; print("degree", len(g) - 1, file=sys.stderr)
found = False
for g in ker:
    if g and isinstance(g[0], F1) and len(g) == 5:
        h = [F1(1)]
        for r in g: h = pmul(h, [-r, F1(1)])
    else: h = g
    A, B, num, den, yn, yd = kohel(A1, B1, h)
    assert identity(A1, B1, A, B, num, den, yn, yd)
    print("codomain A==0:", A == 0, file=sys.stderr)
    if A == 0:
        for u in sixth_roots(F1(4) * B.inv(), F1, p):
            xn = pscal(num, u * u); yy = pscal(yn, u * u * u)
            if xn[0] == F1(0x11a05f2b1e833340b809101dd99815856b303e88a2d7005ff2627b56cdb4e2c85610c2d5f2e62d6eaeac1662734649b7) and yy[0] == F1(0x90d97c81ba24ee0259d1f094980dcfa11ad138e48a869522b52af6c956543d3cd0c7aee9b3ba3c2be9845719707bb33):
                found = True; out += emit("K1xn", xn, 0) + emit("K1xd", den, 0) + emit("K1yn", yy, 0) + emit("K1yd", yd, 0)
                assert identity(A1, B1, F1(0), F1(4), xn, den, yy, yd)
                if g is not h: print("kernel x rational; y^2 square:", [pow(pev([B1, A1, F1(0), F1(1)], r).a, (p - 1) // 2, p) == 1 for r in g], file=sys.stderr)
assert found, "G1 isogeny not matched"
A2, B2 = F2(0, 240), F2(1012, 1012)
psi3 = divpol(3, A2, B2); rs = roots(psi3, F2, p * p); print("G2: rational 3-kernels:", len(rs), file=sys.stderr)
found = False
for r in rs:
    h = [-r, F2(1)]; A, B, num, den, yn, yd = kohel(A2, B2, h); assert identity(A2, B2, A, B, num, den, yn, yd)
    if A == 0:
        for u in sixth_roots(F2(4, 4) * B.inv(), F2, p * p):
            xn = pscal(num, u * u); yy = pscal(yn, u * u * u); c = 0x5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6
            d = 0x1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706
            if xn[0] == F2(c, c) and yy[0] == F2(d, d):
                found = True; out += emit("K2xn", xn, 1) + emit("K2xd", den, 1) + emit("K2yn", yy, 1) + emit("K2yd", yd, 1)
assert found, "G2 isogeny not matched"
sys.stdout.write(out)
