// Reference model: plain, independent implementations used as the oracle.  Nothing here calls the library under test.
// Field elements are kept as 6 little-endian words in Montgomery form with R = 2^384 (the representation the library
// exposes), multiplied by a textbook word-by-word Montgomery product over unsigned __int128; selftest() validates that
// product against GMP integers on every run.
#pragma once
#include <cstdint>
#include <cstring>
#include <array>
#include <vector>
#include <string>
#include <stdexcept>
#include <gmpxx.h>

namespace ref {
typedef uint64_t u64; typedef unsigned __int128 u128; typedef uint8_t u8;
typedef std::vector<u8> Bytes;
typedef mpz_class Z;

inline const u64 P[6] = {0xb9feffffffffaaabULL, 0x1eabfffeb153ffffULL, 0x6730d2a0f6b0f624ULL, 0x64774b84f38512bfULL, 0x4b1ba7b6434bacd7ULL, 0x1a0111ea397fe69aULL};
inline const Z ZP("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16);
inline const Z ZR("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16);
inline const Z ZX("d201000000010000", 16);                       // |x|, the curve parameter is -x
inline const u64 PINV = 0x89f3fffcfffcfffdULL;                    // -p^-1 mod 2^64

inline Z zfrom(const u64* d, size_t n) { Z z; mpz_import(z.get_mpz_t(), n, -1, 8, 0, 0, d); return z; }
inline void zto(const Z& z, u64* d, size_t n) {
    memset(d, 0, 8 * n); if (z < 0 || mpz_sizeinbase(z.get_mpz_t(), 2) > 64 * n) throw std::runtime_error("ref: zto overflow");
    size_t c; mpz_export(d, &c, -1, 8, 0, 0, z.get_mpz_t());
}
inline Z zmod(const Z& a, const Z& m) { Z r = a % m; if (r < 0) r += m; return r; }
inline Z zpow(const Z& b, const Z& e, const Z& m) { Z r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }

struct Fe {
    u64 d[6];
    bool operator==(const Fe& o) const { return memcmp(d, o.d, 48) == 0; }
    bool isz() const { return (d[0] | d[1] | d[2] | d[3] | d[4] | d[5]) == 0; }
};
inline int cmp6(const u64* a, const u64* b) { for (int i = 5; i >= 0; i--) { if (a[i] < b[i]) return -1; if (a[i] > b[i]) return 1; } return 0; }
inline u64 add6(u64* z, const u64* a, const u64* b) { u128 c = 0; for (int i = 0; i < 6; i++) { c += (u128)a[i] + b[i]; z[i] = (u64)c; c >>= 64; } return (u64)c; }
inline u64 sub6(u64* z, const u64* a, const u64* b) { u64 br = 0; for (int i = 0; i < 6; i++) { u128 t = (u128)a[i] - b[i] - br; z[i] = (u64)t; br = (u64)(t >> 64) & 1; } return br; }
inline Fe fzero() { return Fe{{0, 0, 0, 0, 0, 0}}; }
inline Fe add(const Fe& a, const Fe& b) { Fe r; u64 t[6]; add6(r.d, a.d, b.d); if (sub6(t, r.d, P) == 0) memcpy(r.d, t, 48); return r; }   // a,b<p<2^381
inline Fe sub(const Fe& a, const Fe& b) { Fe r; if (sub6(r.d, a.d, b.d)) add6(r.d, r.d, P); return r; }
inline Fe neg(const Fe& a) { return sub(fzero(), a); }
inline Fe dbl(const Fe& a) { return add(a, a); }
// Montgomery product of any two 6-word values a,b with a*b < 2^384*2^384 - 2^384*p
inline Fe mul(const Fe& a, const Fe& b) {
    u64 t[8] = {0};
    for (int i = 0; i < 6; i++) {
        u128 c = 0;
        for (int j = 0; j < 6; j++) { c += (u128)a.d[j] * b.d[i] + t[j]; t[j] = (u64)c; c >>= 64; }
        c += t[6]; t[6] = (u64)c; t[7] = (u64)(c >> 64);
        u64 m = t[0] * PINV;
        c = (u128)m * P[0] + t[0]; c >>= 64;
        for (int j = 1; j < 6; j++) { c += (u128)m * P[j] + t[j]; t[j - 1] = (u64)c; c >>= 64; }
        c += t[6]; t[5] = (u64)c; t[6] = t[7] + (u64)(c >> 64);
    }
    while (t[6] || cmp6(t, P) >= 0) { u64 br = sub6(t, t, P); t[6] -= br; }
    Fe r; memcpy(r.d, t, 48); return r;
}
inline Fe sqr(const Fe& a) { return mul(a, a); }
inline Z toz(const Fe& a);                                        // field value as an integer
inline Fe fromz(const Z& z) { Fe r; zto(zmod(z << 384, ZP), r.d, 6); return r; }
inline Z rawz(const Fe& a) { return zfrom(a.d, 6); }
inline Fe raw(const Z& z) { Fe r; zto(z, r.d, 6); return r; }
inline const Fe FONE = fromz(1);
inline const Z ZRINV = [] { Z r = (Z(1) << 384) % ZP, i; mpz_invert(i.get_mpz_t(), r.get_mpz_t(), ZP.get_mpz_t()); return i; }();
// representation + 1
inline Fe raw_bump(const Fe& a) { return raw((rawz(a) + 1) % ZP); }
inline Z toz(const Fe& a) { return (rawz(a) * ZRINV) % ZP; }
inline Fe fint(long k) { return fromz(Z(k)); }
inline Fe inv(const Fe& a) { if (a.isz()) return fzero(); Z v = toz(a), i; mpz_invert(i.get_mpz_t(), v.get_mpz_t(), ZP.get_mpz_t()); return fromz(i); }
inline Fe fpow(const Fe& a, const Z& e) { return fromz(zpow(toz(a), e, ZP)); }
inline bool is_square(const Fe& a) { if (a.isz()) return true; Z v = toz(a); return mpz_legendre(v.get_mpz_t(), ZP.get_mpz_t()) == 1; }
inline bool fsqrt(const Fe& a, Fe& out) { Z v = toz(a); Z r = zpow(v, (ZP + 1) / 4, ZP); out = fromz(r); return (r * r) % ZP == v; }
inline bool odd(const Fe& a) { return mpz_odd_p(toz(a).get_mpz_t()); }
inline bool lex_largest(const Fe& a) { return toz(a) > (ZP - 1) / 2; }

// ---------- Fp2 = Fp[u]/(u^2+1) ----------
struct F2 { Fe a, b; bool operator==(const F2& o) const { return a == o.a && b == o.b; } bool isz() const { return a.isz() && b.isz(); } };
inline F2 f2(const Fe& a, const Fe& b) { return F2{a, b}; }
inline const F2 F2ONE = {FONE, fzero()};
inline F2 f2zero() { return F2{fzero(), fzero()}; }
inline F2 add(const F2& x, const F2& y) { return {add(x.a, y.a), add(x.b, y.b)}; }
inline F2 sub(const F2& x, const F2& y) { return {sub(x.a, y.a), sub(x.b, y.b)}; }
inline F2 neg(const F2& x) { return {neg(x.a), neg(x.b)}; }
inline F2 dbl(const F2& x) { return add(x, x); }
inline F2 conj(const F2& x) { return {x.a, neg(x.b)}; }
inline F2 mul(const F2& x, const F2& y) { return {sub(mul(x.a, y.a), mul(x.b, y.b)), add(mul(x.a, y.b), mul(x.b, y.a))}; }
inline F2 sqr(const F2& x) { return mul(x, x); }
inline F2 mulf(const F2& x, const Fe& k) { return {mul(x.a, k), mul(x.b, k)}; }
inline F2 inv(const F2& x) { Fe n = inv(add(sqr(x.a), sqr(x.b))); return {mul(x.a, n), neg(mul(x.b, n))}; }
inline F2 fpow(const F2& x, const Z& e) { F2 r = F2ONE; for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = sqr(r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, x); } return r; }
inline bool is_square(const F2& x) { return is_square(add(sqr(x.a), sqr(x.b))); }     // x is a square iff its norm is a square in Fp
inline bool odd_sgn0(const F2& x) { return odd(x.a) || (x.a.isz() && odd(x.b)); }     // RFC 9380 sgn0
inline bool lex_largest(const F2& x) { return x.b.isz() ? lex_largest(x.a) : lex_largest(x.b); }
// square root in Fp2 by the norm method
inline bool fsqrt(const F2& x, F2& out) {
    if (x.isz()) { out = x; return true; }
    if (!is_square(x)) return false;
    if (x.b.isz()) { Fe r; if (fsqrt(x.a, r)) { out = {r, fzero()}; return true; } if (!fsqrt(neg(x.a), r)) return false; out = {fzero(), r}; return true; }
    Fe n; fsqrt(add(sqr(x.a), sqr(x.b)), n);
    Fe half = inv(fint(2)); Fe t = mul(add(x.a, n), half), r;
    if (!fsqrt(t, r)) { t = mul(sub(x.a, n), half); if (!fsqrt(t, r)) return false; }
    out = {r, mul(x.b, inv(dbl(r)))};
    return sqr(out) == x;
}

inline F2 raw_bump(const F2& x) { return {x.a, raw_bump(x.b)}; }
// ---------- Fp12 as Fp[w]/(w^12 - 2 w^6 + 2);  u = w^6 - 1, v = w^2 ----------
struct Fw { Fe c[12]; bool operator==(const Fw& o) const { return memcmp(this, &o, sizeof(Fw)) == 0; } };
inline Fw wzero() { Fw r; memset(&r, 0, sizeof r); return r; }
inline Fw wone() { Fw r = wzero(); r.c[0] = FONE; return r; }
inline Fw add(const Fw& x, const Fw& y) { Fw r; for (int i = 0; i < 12; i++) r.c[i] = add(x.c[i], y.c[i]); return r; }
inline Fw sub(const Fw& x, const Fw& y) { Fw r; for (int i = 0; i < 12; i++) r.c[i] = sub(x.c[i], y.c[i]); return r; }
inline Fw neg(const Fw& x) { return sub(wzero(), x); }
inline Fw mul(const Fw& x, const Fw& y) {
    Fe t[23]; memset(t, 0, sizeof t);
    for (int i = 0; i < 12; i++) if (!x.c[i].isz()) for (int j = 0; j < 12; j++) if (!y.c[j].isz()) t[i + j] = add(t[i + j], mul(x.c[i], y.c[j]));
    for (int k = 22; k >= 12; k--) { Fe d = dbl(t[k]); t[k - 6] = add(t[k - 6], d); t[k - 12] = sub(t[k - 12], d); }   // w^12 = 2w^6 - 2
    Fw r; memcpy(r.c, t, sizeof r.c); return r;
}
inline Fw sqr(const Fw& x) { return mul(x, x); }
inline Fw wpow(const Fw& x, const Z& e) { Fw r = wone(); for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = sqr(r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, x); } return r; }
// embed (a + b u) w^k, 0 <= k < 6
inline void put2(Fw& r, const F2& x, int k) { r.c[k] = add(r.c[k], sub(x.a, x.b)); r.c[k + 6] = add(r.c[k + 6], x.b); }
inline F2 get2(const Fw& r, int k) { return {add(r.c[k], r.c[k + 6]), r.c[k + 6]}; }
inline Fw emb2(const F2& x) { Fw r = wzero(); put2(r, x, 0); return r; }
// Frobenius x -> x^(p^k): Fp-linear, determined by the image of w
struct FrobTab { Fw W[12][12]; FrobTab() {
    Fw w = wzero(); w.c[1] = FONE; Fw wp = wpow(w, ZP);
    Fw pk = w;                                                    // w^(p^k)
    for (int k = 0; k < 12; k++) {
        W[k][0] = wone(); for (int i = 1; i < 12; i++) W[k][i] = mul(W[k][i - 1], pk);
        // next: (w^(p^k))^p = sum c_i (w^p)^i
        Fw n = wzero(), pw = wone(); for (int i = 0; i < 12; i++) { for (int j = 0; j < 12; j++) n.c[j] = add(n.c[j], mul(pk.c[i], pw.c[j])); pw = mul(pw, wp); }
        pk = n;
    } } };
inline const FrobTab& frobtab() { static FrobTab t; return t; }
inline Fw frob(const Fw& x, u64 k) { const FrobTab& t = frobtab(); k %= 12; Fw r = wzero(); for (int i = 0; i < 12; i++) for (int j = 0; j < 12; j++) r.c[j] = add(r.c[j], mul(x.c[i], t.W[k][i].c[j])); return r; }
inline Fw inv(const Fw& x) {                                      // norm to Fp via conjugates
    Fw y = wone(); for (int k = 1; k < 12; k++) y = mul(y, frob(x, k));
    Fw n = mul(x, y);                                             // in Fp
    Fe ni = inv(n.c[0]); for (int i = 0; i < 12; i++) y.c[i] = mul(y.c[i], ni); return y;
}

// ---------- short Weierstrass curves y^2 = x^3 + b over a field T, homogeneous coordinates, complete addition ----------
// Renes-Costello-Batina Algorithm 7 (a = 0); complete because both curves have odd order (no 2-torsion).
template<class T> struct Pt { T x, y, z; };
template<class T> struct Crv;
template<> struct Crv<Fe> { static Fe one() { return FONE; } static Fe zero() { return fzero(); } static Fe b() { return fint(4); } static Fe b3() { static const Fe v = fint(12); return v; } };
template<> struct Crv<F2> { static F2 one() { return F2ONE; } static F2 zero() { return f2zero(); } static F2 b() { return {fint(4), fint(4)}; } static F2 b3() { static const F2 v = {fint(12), fint(12)}; return v; } };
typedef Pt<Fe> P1; typedef Pt<F2> P2;
template<class T> inline Pt<T> pinf() { return {Crv<T>::zero(), Crv<T>::one(), Crv<T>::zero()}; }
template<class T> inline bool isinf(const Pt<T>& p) { return p.z.isz(); }
template<class T> inline Pt<T> aff(const T& x, const T& y) { return {x, y, Crv<T>::one()}; }
template<class T> inline Pt<T> neg(const Pt<T>& p) { return {p.x, neg(p.y), p.z}; }
template<class T> inline Pt<T> add(const Pt<T>& p, const Pt<T>& q) {
    T b3 = Crv<T>::b3();
    T t0 = mul(p.x, q.x), t1 = mul(p.y, q.y), t2 = mul(p.z, q.z);
    T t3 = sub(mul(add(p.x, p.y), add(q.x, q.y)), add(t0, t1));
    T t4 = sub(mul(add(p.y, p.z), add(q.y, q.z)), add(t1, t2));
    T y3 = sub(mul(add(p.x, p.z), add(q.x, q.z)), add(t0, t2));
    t0 = add(add(t0, t0), t0); t2 = mul(b3, t2);
    T z3 = add(t1, t2); t1 = sub(t1, t2); y3 = mul(b3, y3);
    Pt<T> r;
    r.x = sub(mul(t3, t1), mul(t4, y3));
    r.y = add(mul(t1, z3), mul(y3, t0));
    r.z = add(mul(z3, t4), mul(t0, t3));
    return r;
}
template<class T> inline Pt<T> dblp(const Pt<T>& p) { return add(p, p); }
template<class T> inline Pt<T> smul(const Pt<T>& p, const Z& k) {
    Z e = k; Pt<T> q = p; if (e < 0) { e = -e; q = neg(p); }
    Pt<T> r = pinf<T>(); if (e == 0) return r;
    for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = add(r, q); }
    return r;
}
template<class T> inline Pt<T> norm(const Pt<T>& p) { if (isinf(p)) return pinf<T>(); T i = inv(p.z); return {mul(p.x, i), mul(p.y, i), Crv<T>::one()}; }
template<class T> inline bool eq(const Pt<T>& p, const Pt<T>& q) {
    if (isinf(p) || isinf(q)) return isinf(p) && isinf(q);
    return mul(p.x, q.z) == mul(q.x, p.z) && mul(p.y, q.z) == mul(q.y, p.z);
}
template<class T> inline bool oncurve(const Pt<T>& p) { if (isinf(p)) return true; Pt<T> n = norm(p); return sqr(n.y) == add(mul(sqr(n.x), n.x), Crv<T>::b()); }
// does Jacobian (X:Y:Z) represent the homogeneous point p ?
template<class T> inline bool eqjac(const T& X, const T& Y, const T& Zc, const Pt<T>& p) {
    if (Zc.isz() || isinf(p)) return Zc.isz() && isinf(p);
    T z2 = sqr(Zc), z3 = mul(z2, Zc);
    return mul(X, p.z) == mul(p.x, z2) && mul(Y, p.z) == mul(p.y, z3);
}
template<class T> inline Pt<T> fromjac(const T& X, const T& Y, const T& Zc) { if (Zc.isz()) return pinf<T>(); T i = inv(Zc), i2 = sqr(i); return {mul(X, i2), mul(Y, mul(i2, i)), Crv<T>::one()}; }

inline Fe fhex(const char* s) { return fromz(Z(s, 16)); }
inline const P1& G1() { static const P1 g = aff<Fe>(
    fhex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
    fhex("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")); return g; }
inline const P2& G2() { static const P2 g = aff<F2>(
    {fhex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), fhex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
    {fhex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), fhex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}); return g; }
inline const Z& H1() { static const Z h("396c8c005555e1568c00aaab0000aaab", 16); return h; }
inline const Z& H2() { static const Z h("5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5", 16); return h; }
// RFC 9380 effective cofactors (8.8.1, 8.8.2) as used by this library: h_eff = 1 - x for G1.  For G2 see c9: [x^2-x-1] + [x-1]psi + psi^2(2)
inline bool insub(const P1& p) { return isinf(smul(p, ZR)); }
inline bool insub(const P2& p) { return isinf(smul(p, ZR)); }

// ---------- SHA-256, HMAC, HKDF (FIPS 180-4, RFC 2104, RFC 5869) ----------
inline std::array<u8, 32> sha256(const u8* in, size_t n) {
    static const auto K = [] { // cube roots of the first 64 primes
        std::array<uint32_t, 64> k{}; int c = 0; for (int p = 2; c < 64; p++) { bool pr = true; for (int q = 2; q * q <= p; q++) if (p % q == 0) pr = false; if (!pr) continue;
            Z v = Z(p) << 96; Z r; mpz_root(r.get_mpz_t(), v.get_mpz_t(), 3); k[c++] = (uint32_t)(mpz_class(r & Z(0xffffffffUL)).get_ui()); } return k; }();
    static const auto H0 = [] { std::array<uint32_t, 8> k{}; int c = 0; for (int p = 2; c < 8; p++) { bool pr = true; for (int q = 2; q * q <= p; q++) if (p % q == 0) pr = false; if (!pr) continue;
            Z v = Z(p) << 64; Z r; mpz_sqrt(r.get_mpz_t(), v.get_mpz_t()); k[c++] = (uint32_t)(mpz_class(r & Z(0xffffffffUL)).get_ui()); } return k; }();
    Bytes m; if (n) m.assign(in, in + n); m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0);
    u64 bits = (u64)n * 8; for (int i = 7; i >= 0; i--) m.push_back((u8)(bits >> (8 * i)));
    auto h = H0; auto rr = [](uint32_t x, int k) { return (x >> k) | (x << (32 - k)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)m[o + 4 * i] << 24 | (uint32_t)m[o + 4 * i + 1] << 16 | (uint32_t)m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
        for (int i = 16; i < 64; i++) w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
            uint32_t t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }
    std::array<u8, 32> r; for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) r[4 * i + j] = (u8)(h[i] >> (24 - 8 * j)); return r;
}
inline Bytes shaB(const Bytes& b) { auto a = sha256(b.data(), b.size()); return Bytes(a.begin(), a.end()); }
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
inline Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline Bytes i2osp(u64 v, int n) { Bytes r(n); for (int i = n - 1; i >= 0; i--) { r[i] = (u8)v; v >>= 8; } return r; }
inline Bytes zbytes(const Z& z, int n) { Bytes r(n); Z t = z; for (int i = n - 1; i >= 0; i--) { r[i] = (u8)mpz_class(t & Z(255)).get_ui(); t >>= 8; } return r; }
inline Z bytesz(const Bytes& b) { Z z = 0; for (u8 c : b) z = (z << 8) + (unsigned)c; return z; }
inline Bytes hmac(Bytes key, const Bytes& msg) {
    if (key.size() > 64) key = shaB(key); key.resize(64, 0);
    Bytes i = key, o = key; for (auto& c : i) c ^= 0x36; for (auto& c : o) c ^= 0x5c;
    return shaB(cat({o, shaB(cat({i, msg}))}));
}
inline Bytes hkdf_expand(const Bytes& prk, const Bytes& info, size_t L) {
    Bytes out, t; for (int i = 1; out.size() < L; i++) { t = hmac(prk, cat({t, info, Bytes{(u8)i}})); out.insert(out.end(), t.begin(), t.end()); } out.resize(L); return out;
}
inline Bytes hkdf(const Bytes& salt, const Bytes& ikm, const Bytes& info, size_t L) { return hkdf_expand(hmac(salt, ikm), info, L); }
// ---------- EIP-2333 (the revision the library documents: first salt unhashed) ----------
inline Z keygen(const Bytes& ikm) {
    Bytes salt = str("BLS-SIG-KEYGEN-SALT-"); Z sk = 0;
    while (sk == 0) { sk = bytesz(hkdf(salt, cat({ikm, Bytes{0}}), i2osp(48, 2), 48)) % ZR; salt = shaB(salt); }
    return sk;
}
inline Bytes lamport_pk(const Z& parent, uint32_t index) {
    Bytes salt = i2osp(index, 4), ikm = zbytes(parent, 32), nikm = ikm; for (auto& c : nikm) c ^= 0xff;
    Bytes l0 = hkdf(salt, ikm, {}, 255 * 32), l1 = hkdf(salt, nikm, {}, 255 * 32), pk;
    for (auto* l : {&l0, &l1}) for (int i = 0; i < 255; i++) { auto h = sha256(l->data() + 32 * i, 32); pk.insert(pk.end(), h.begin(), h.end()); }
    return shaB(pk);
}
inline Z derive_child(const Z& parent, uint32_t index) { return keygen(lamport_pk(parent, index)); }
// ---------- RFC 9380 ----------
inline Bytes xmd(const Bytes& msg, Bytes dst, size_t L) {
    if (dst.size() > 255) dst = shaB(cat({str("H2C-OVERSIZE-DST-"), dst}));
    Bytes dp = dst; dp.push_back((u8)dst.size());
    size_t ell = (L + 31) / 32; if (ell > 255) throw std::runtime_error("ref: xmd length");
    Bytes b0 = shaB(cat({Bytes(64, 0), msg, i2osp(L, 2), Bytes{0}, dp})), b = shaB(cat({b0, Bytes{1}, dp})), out = b;
    for (size_t i = 2; i <= ell; i++) { Bytes x(32); for (int j = 0; j < 32; j++) x[j] = b0[j] ^ b[j]; b = shaB(cat({x, Bytes{(u8)i}, dp})); out.insert(out.end(), b.begin(), b.end()); }
    out.resize(L); return out;
}
inline Bytes sub(const Bytes& b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
// generic simplified SWU (RFC 9380 6.6.2) on y^2 = x^3 + A x + B
template<class T> inline void sswu(const T& u, const T& A, const T& B, const T& Zc, const T& one, bool (*sgn)(const T&), T& x, T& y) {
    T zu2 = mul(Zc, sqr(u)); T tv = add(sqr(zu2), zu2); T tv1 = inv(tv);
    T x1 = tv1.isz() ? mul(B, inv(mul(Zc, A))) : mul(mul(neg(B), inv(A)), add(one, tv1));
    auto g = [&](const T& x) { return add(mul(add(sqr(x), A), x), B); };
    T gx1 = g(x1), x2 = mul(zu2, x1), gx2 = g(x2);
    if (is_square(gx1)) { x = x1; fsqrt(gx1, y); } else { x = x2; if (!fsqrt(gx2, y)) throw std::runtime_error("ref: sswu: neither is square"); }
    if (sgn(u) != sgn(y)) y = neg(y);
}
inline bool sgn0(const Fe& a) { return odd(a); }
inline bool sgn0(const F2& a) { return odd_sgn0(a); }
#include "iso.inc"

inline const Fe& SA1() { static const Fe v = fhex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"); return v; }
inline const Fe& SB1() { static const Fe v = fhex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"); return v; }
inline P1 sswu1(const Fe& u) { Fe x, y; sswu<Fe>(u, SA1(), SB1(), fint(11), FONE, &sgn0, x, y); return aff(x, y); }        // on E1'
inline P2 sswu2(const F2& u) { F2 x, y; static const F2 A = {fzero(), fint(240)}, B = {fint(1012), fint(1012)}, Zc = {neg(fint(2)), neg(FONE)}; sswu<F2>(u, A, B, Zc, F2ONE, &sgn0, x, y); return aff(x, y); }
template<class T, size_t N> inline T horner(const T (&k)[N], const T& x) { T r = k[N - 1]; for (size_t i = N - 1; i-- > 0;) r = add(mul(r, x), k[i]); return r; }
template<class T, size_t A, size_t B, size_t C, size_t D> inline Pt<T> isomap(const T (&xn)[A], const T (&xd)[B], const T (&yn)[C], const T (&yd)[D], const Pt<T>& p) {
    T d = horner(xd, p.x), e = horner(yd, p.x); if (d.isz() || e.isz()) return pinf<T>();
    return aff<T>(mul(horner(xn, p.x), inv(d)), mul(p.y, mul(horner(yn, p.x), inv(e))));
}
inline P1 iso1(const P1& p) { return isomap(K1xn(), K1xd(), K1yn(), K1yd(), p); }
inline P2 iso2(const P2& p) { return isomap(K2xn(), K2xd(), K2yn(), K2yd(), p); }
inline Z HEFF1() { return ZX + 1; }                               // RFC 9380 8.8.1: 0xd201000000010001
inline const Z& HEFF2() { static const Z h("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551", 16); return h; }
inline P1 map1(const Fe& u) { return norm(smul(iso1(sswu1(u)), HEFF1())); }
inline P2 map2(const F2& u) { return norm(smul(iso2(sswu2(u)), HEFF2())); }
inline P2 hash2(const Bytes& msg, const Bytes& dst) {
    Bytes b = xmd(msg, dst, 256); Z e[4]; for (int i = 0; i < 4; i++) e[i] = bytesz(sub(b, 64 * i, 64)) % ZP;
    P2 p = iso2(sswu2({fromz(e[0]), fromz(e[1])})), q = iso2(sswu2({fromz(e[2]), fromz(e[3])}));
    return norm(smul(add(p, q), HEFF2()));
}
// ---------- ZCash compressed encoding ----------
inline Bytes fbytes(const Fe& a) { return zbytes(toz(a), 48); }
inline Bytes compress(const P1& p0) { if (isinf(p0)) { Bytes r(48, 0); r[0] = 0xc0; return r; } P1 p = norm(p0); Bytes r = fbytes(p.x); r[0] |= 0x80; if (lex_largest(p.y)) r[0] |= 0x20; return r; }
inline Bytes compress(const P2& p0) { if (isinf(p0)) { Bytes r(96, 0); r[0] = 0xc0; return r; } P2 p = norm(p0); Bytes r = cat({fbytes(p.x.b), fbytes(p.x.a)}); r[0] |= 0x80; if (lex_largest(p.y)) r[0] |= 0x20; return r; }
inline bool decompress(const Bytes& in, P1& out) {
    if (in.size() != 48 || !(in[0] & 0x80)) return false; Bytes b = in; bool s = in[0] & 0x20, i = in[0] & 0x40; b[0] &= 0x1f; Z x = bytesz(b);
    if (i) { if (s || x != 0) return false; out = pinf<Fe>(); return true; }
    if (x >= ZP) return false; Fe X = fromz(x), y; if (!fsqrt(add(mul(sqr(X), X), Crv<Fe>::b()), y)) return false; if (lex_largest(y) != s) y = neg(y); out = aff(X, y); return true;
}
inline bool decompress(const Bytes& in, P2& out) {
    if (in.size() != 96 || !(in[0] & 0x80)) return false; Bytes b = in; bool s = in[0] & 0x20, i = in[0] & 0x40; b[0] &= 0x1f; Z x1 = bytesz(sub(b, 0, 48)), x0 = bytesz(sub(b, 48, 48));
    if (i) { if (s || x1 != 0 || x0 != 0) return false; out = pinf<F2>(); return true; }
    if (x1 >= ZP || x0 >= ZP) return false; F2 X = {fromz(x0), fromz(x1)}, y; if (!fsqrt(add(mul(sqr(X), X), Crv<F2>::b()), y)) return false; if (lex_largest(y) != s) y = neg(y); out = aff(X, y); return true;
}
// ---------- pairing (reduced, textbook): f_{|x|,Q}(P)^((p^12-1)/r), conjugated because the parameter is negative ----------
// Q on the twist y^2 = x^3 + 4(1+u) maps to (x/w^2, y/w^3) on y^2 = x^3 + 4 over Fp12
inline const Fw& winv() { static const Fw v = [] { Fw w = wzero(); w.c[1] = FONE; return inv(w); }(); return v; }
inline Fw miller(const P1& p0, const P2& q0) {
    if (isinf(p0) || isinf(q0)) return wone();
    P1 p = norm(p0); P2 q = norm(q0);
    Fw wi = winv(), w2 = mul(wi, wi), w3 = mul(w2, wi);
    struct A { Fw x, y; }; A Q{mul(emb2(q.x), w2), mul(emb2(q.y), w3)}, T = Q;
    Fw px = wzero(), py = wzero(); px.c[0] = p.x; py.c[0] = p.y;
    Fw f = wone();
    auto line = [&](const A& a, const A& b) {                     // chord/tangent through a,b evaluated at P; a updated to a+b
        Fw l; if (a.x == b.x) { Fw x2 = sqr(a.x); l = mul(add(add(x2, x2), x2), inv(add(a.y, a.y))); } else l = mul(sub(b.y, a.y), inv(sub(b.x, a.x)));
        Fw v = sub(sub(py, a.y), mul(l, sub(px, a.x)));
        A r; r.x = sub(sub(sqr(l), a.x), b.x); r.y = sub(mul(l, sub(a.x, r.x)), a.y); T = r; return v;
    };
    for (int i = 62; i >= 0; i--) {
        f = sqr(f); A a = T; f = mul(f, line(a, a));
        if (mpz_tstbit(ZX.get_mpz_t(), i)) { A c = T; f = mul(f, line(c, Q)); }
    }
    return frob(f, 6);                                            // x < 0: conjugate
}
inline Fw finalexp(const Fw& f) { static const Z e = [] { Z t; mpz_pow_ui(t.get_mpz_t(), ZP.get_mpz_t(), 12); return Z((t - 1) / ZR); }(); return wpow(f, e); }
inline Fw pairing(const P1& p, const P2& q) { return finalexp(miller(p, q)); }

// ---------- self-test of the field product against GMP, run by every harness before exploring ----------
inline void selftest() {
    std::vector<Z> v; for (int i = 0; i < 381; i += 19) { v.push_back((Z(1) << i) % ZP); v.push_back(ZP - (Z(1) << i)); }
    v.push_back(0); v.push_back(1); v.push_back(ZP - 1); v.push_back(ZP / 2); v.push_back((Z(1) << 380) - 1);
    for (auto& a : v) for (auto& b : v) {
        Fe x = raw(a), y = raw(b);
        if (rawz(mul(x, y)) != (a * b * ZRINV) % ZP || rawz(add(x, y)) != (a + b) % ZP || rawz(sub(x, y)) != zmod(a - b, ZP)) throw std::runtime_error("reference self-test failed (field)");
    }
    if (!oncurve(G1()) || !oncurve(G2()) || !insub(G1()) || !insub(G2())) throw std::runtime_error("reference self-test failed (generators)");
    Bytes h = shaB(str("abc")); static const u8 e[4] = {0xba, 0x78, 0x16, 0xbf}; if (memcmp(h.data(), e, 4)) throw std::runtime_error("reference self-test failed (sha)");
}
} // namespace ref
