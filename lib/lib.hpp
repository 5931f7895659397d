// Glue between the library's public types and the reference model's.
#pragma once
#include <bls12-381/bls12-381.hpp>
#include "mc.hpp"
#include "ref.hpp"

namespace lx {
namespace B = bls12_381;
using B::fp; using B::fp2; using B::fp6; using B::fp12; using B::g1; using B::g2;
using ref::Fe; using ref::F2; using ref::Fw; using ref::P1; using ref::P2; using ref::Z; using ref::Bytes;
typedef uint64_t u64; typedef uint8_t u8;

inline fp L(const Fe& a) { std::array<u64, 6> d; memcpy(d.data(), a.d, 48); return fp(d); }
inline Fe R(const fp& a) { Fe r; memcpy(r.d, a.d.data(), 48); return r; }
inline fp2 L(const F2& a) { return fp2({L(a.a), L(a.b)}); }
inline F2 R(const fp2& a) { return {R(a.c0), R(a.c1)}; }
inline Fw R(const fp6& a) { Fw r = ref::wzero(); ref::put2(r, R(a.c0), 0); ref::put2(r, R(a.c1), 2); ref::put2(r, R(a.c2), 4); return r; }
inline Fw R(const fp12& a) { Fw r = ref::wzero(); const fp6* h[2] = {&a.c0, &a.c1}; for (int k = 0; k < 2; k++) { ref::put2(r, R(h[k]->c0), k); ref::put2(r, R(h[k]->c1), k + 2); ref::put2(r, R(h[k]->c2), k + 4); } return r; }
inline fp6 L6(const Fw& w) { return fp6({L(ref::get2(w, 0)), L(ref::get2(w, 2)), L(ref::get2(w, 4))}); }
inline fp12 L12(const Fw& w) { return fp12({L6(w), fp6({L(ref::get2(w, 1)), L(ref::get2(w, 3)), L(ref::get2(w, 5))})}); }
// Jacobian point with a chosen representative: (x z^2, y z^3, z)
inline g1 J(const P1& p, const Fe& z) { P1 n = ref::norm(p); if (ref::isinf(n)) return g1::zero(); Fe z2 = ref::sqr(z); return g1({L(ref::mul(n.x, z2)), L(ref::mul(n.y, ref::mul(z2, z))), L(z)}); }
inline g2 J(const P2& p, const F2& z) { P2 n = ref::norm(p); if (ref::isinf(n)) return g2::zero(); F2 z2 = ref::sqr(z); return g2({L(ref::mul(n.x, z2)), L(ref::mul(n.y, ref::mul(z2, z))), L(z)}); }
inline g1 A(const P1& p) { return J(p, ref::FONE); }
inline g2 A(const P2& p) { return J(p, ref::F2ONE); }
inline P1 R(const g1& p) { return ref::fromjac<Fe>(R(p.x), R(p.y), R(p.z)); }
inline P2 R(const g2& p) { return ref::fromjac<F2>(R(p.x), R(p.y), R(p.z)); }
inline bool same(const g1& p, const P1& q) { return ref::eqjac<Fe>(R(p.x), R(p.y), R(p.z), q); }
inline bool same(const g2& p, const P2& q) { return ref::eqjac<F2>(R(p.x), R(p.y), R(p.z), q); }
inline bool canon(const fp& a) { return ref::cmp6(a.d.data(), ref::P) < 0; }
inline bool canon(const fp2& a) { return canon(a.c0) && canon(a.c1); }
inline bool canon(const g1& a) { return canon(a.x) && canon(a.y) && canon(a.z); }
inline bool canon(const g2& a) { return canon(a.x) && canon(a.y) && canon(a.z); }
inline bool same_bits(const fp& a, const fp& b) { return a.d == b.d; }
inline std::string S(const fp& a) { std::string s; for (int i = 5; i >= 0; i--) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)a.d[i]); s += b; } return s; }
inline std::string S(const Fe& a) { return S(L(a)); }
inline std::string S(const fp2& a) { return "(" + S(a.c0) + "," + S(a.c1) + ")"; }
inline std::string S(const F2& a) { return S(L(a)); }
inline std::string S(const g1& a) { return "[" + S(a.x) + ":" + S(a.y) + ":" + S(a.z) + "]"; }
inline std::string S(const g2& a) { return "[" + S(a.x) + ":" + S(a.y) + ":" + S(a.z) + "]"; }
inline std::string S(const P1& a) { return ref::isinf(a) ? std::string("O") : "(" + S(ref::norm(a).x) + "," + S(ref::norm(a).y) + ")"; }
inline std::string S(const P2& a) { return ref::isinf(a) ? std::string("O") : "(" + S(ref::norm(a).x) + "," + S(ref::norm(a).y) + ")"; }
inline std::string S(const Fw& a) { std::string s = "{"; for (int i = 0; i < 12; i++) { if (i) s += ","; s += S(a.c[i]); } return s + "}"; }
inline std::string S(const Z& z) { return z.get_str(16); }
inline u64 H(const Fe& a) { return mc::hash_bytes(&a, sizeof a); }
inline u64 H(const fp& a) { return mc::hash_bytes(a.d.data(), 48); }
inline u64 H(const F2& a) { return mc::hash_bytes(&a, sizeof a); }
inline u64 H(const Fw& a) { return mc::hash_bytes(&a, sizeof a); }
inline u64 H(const P1& a) { P1 n = ref::norm(a); return mc::hash_bytes(&n, sizeof n); }
inline u64 H(const P2& a) { P2 n = ref::norm(a); return mc::hash_bytes(&n, sizeof n); }
inline u64 H(const g1& a) { return H(R(a.x)) ^ 3 * H(R(a.y)) ^ 7 * H(R(a.z)); }
inline u64 H(const g2& a) { return H(R(a.x)) ^ 3 * H(R(a.y)) ^ 7 * H(R(a.z)); }
inline u64 H(const Bytes& b) { return mc::hash_bytes(b.data(), b.size()); }
inline u64 H(const Z& z) { std::string s = z.get_str(62); return mc::hash_bytes(s.data(), s.size()); }
template<size_t N> inline std::array<u64, N> W(const Z& z) { std::array<u64, N> r; ref::zto(z, r.data(), N); return r; }
template<size_t N> inline Z ZW(const std::array<u64, N>& a) { return ref::zfrom(a.data(), N); }
inline P1 operator*(const Z& k, const P1& p) { return ref::smul(p, k); }
inline P2 operator*(const Z& k, const P2& p) { return ref::smul(p, k); }

// ---------------- alphabets ----------------
inline void uniq(std::vector<Z>& v) { std::vector<Z> o; std::unordered_set<std::string> s; for (auto& z : v) if (s.insert(z.get_str(62)).second) o.push_back(z); v.swap(o); }
// raw (representation-level) 384-bit values < bound: structured limb patterns.  level 0 small, 1 medium, 2 large
inline std::vector<Z> raw_alphabet(int level, const Z& bound = ref::ZP) {
    std::vector<Z> v = {0, 1, 2, 3, ref::ZP - 1, ref::ZP - 2, (ref::ZP - 1) / 2, (ref::ZP + 1) / 2, (ref::ZP - 1) / 2 - 1, (Z(1) << 384) % ref::ZP, (Z(1) << 768) % ref::ZP, ref::ZP - (Z(1) << 384) % ref::ZP,
        ref::ZRINV, ref::ZP - ref::ZRINV, (Z(1) << 380) - 1, (Z(1) << 380), (Z(1) << 320) - 1, (Z(1) << 320), (Z(1) << 64) - 1, (Z(1) << 64), (Z(1) << 128) - 1, Z((Z(1) << 384) - 1) / 15 * 1 % ref::ZP, Z((Z(1) << 384) - 1) / 3 % ref::ZP,
        Z("5555555555555555555555555555555555555555555555555555555555555555", 16), Z("00000000ffffffff00000000ffffffff00000000ffffffff00000000ffffffff00000000ffffffff00000000ffffffff", 16)};
    // values near p limb-wise: p with one limb replaced by an extreme
    const u64 ex[] = {0, 1, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 63) - 1};
    for (int i = 0; i < 6; i++) for (u64 e : ex) { u64 d[6]; memcpy(d, ref::P, 48); d[i] = e; v.push_back(ref::zfrom(d, 6)); d[i] = ref::P[i] - 1; v.push_back(ref::zfrom(d, 6)); memset(d, 0, 48); d[i] = e; v.push_back(ref::zfrom(d, 6)); }
    // all-ones below / above each limb boundary
    for (int i = 1; i <= 6; i++) { v.push_back((Z(1) << (64 * i)) - 1); v.push_back((Z(1) << (64 * i)) - 2); v.push_back(ref::ZP >> (64 * i)); v.push_back((ref::ZP >> (64 * i)) << (64 * i)); v.push_back(ref::ZP - (Z(1) << (64 * (i - 1)))); v.push_back((ref::ZP - 1) - ((Z(1) << (64 * (i - 1))) - 1)); }
    if (level >= 1) for (int i = 0; i < 384; i += (level >= 2 ? 1 : 16)) { v.push_back(Z(1) << i); v.push_back((Z(1) << i) - 1); v.push_back((Z(1) << i) + 1); v.push_back(ref::ZP - (Z(1) << i)); }
    if (level >= 2) {                                              // full product of limb values
        const u64 lv[] = {0, ~0ULL, 1ULL << 63};
        for (int m = 0; m < 729; m++) { u64 d[6]; int t = m; for (int i = 0; i < 6; i++) { d[i] = lv[t % 3]; t /= 3; } if (d[5]) d[5] = (d[5] == ~0ULL) ? ref::P[5] : ref::P[5] - 1; v.push_back(ref::zfrom(d, 6)); }
        const int N = 64; for (int m = 0; m < N; m++) { u64 d[6]; for (int i = 0; i < 6; i++) d[i] = (m >> i & 1) ? ref::P[i] : ~0ULL; if (d[5] == ~0ULL) d[5] = ref::P[5] - 1; v.push_back(ref::zfrom(d, 6)); for (int i = 0; i < 6; i++) d[i] = (m >> i & 1) ? ref::P[i] : 0; v.push_back(ref::zfrom(d, 6)); }
    }
    // a few unstructured values (fixed, derived by hashing) so that dense carries are present too
    for (int i = 0; i < 6 + 10 * level; i++) { Bytes b = ref::shaB(ref::i2osp(i, 4)), c = ref::shaB(b); b.insert(b.end(), c.begin(), c.begin() + 16); v.push_back(ref::bytesz(b) % bound); }
    std::vector<Z> o; for (auto& z : v) if (z >= 0 && z < bound) o.push_back(z);
    uniq(o); return o;
}
inline Fe fe_raw(const Z& z) { return ref::raw(z); }
// field *values* of interest (converted to Montgomery form)
inline std::vector<Fe> value_alphabet(int level) {
    std::vector<Fe> r; std::vector<Z> v = {0, 1, 2, 3, 4, ref::ZP - 1, ref::ZP - 2, ref::ZP - 4, (ref::ZP - 1) / 2, (ref::ZP + 1) / 2, (ref::ZP + 3) / 2, ref::ZX, ref::ZP - ref::ZX, Z(1) << 64, ref::ZRINV, (Z(1) << 384) % ref::ZP};
    if (level >= 1) for (int i = 0; i < 6 * level; i++) v.push_back(ref::bytesz(ref::shaB(ref::i2osp(1000 + i, 4))) * ref::bytesz(ref::shaB(ref::i2osp(2000 + i, 4))) % ref::ZP);
    if (level >= 2) for (int i = 2; i < 381; i += 13) { v.push_back(Z(1) << i); v.push_back(ref::ZP - (Z(1) << i)); }
    uniq(v); for (auto& z : v) r.push_back(ref::fromz(z)); return r;
}
// 256-bit scalars of interest
inline std::vector<Z> scalar_alphabet(int level) {
    Z M = (Z(1) << 256) - 1, R = ref::ZR, x = ref::ZX;
    std::vector<Z> v = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, R - 1, R, R + 1, R - 2, R + 2, (R - 1) / 2, (R + 1) / 2, M, M - 1, Z(1) << 255, (Z(1) << 255) - 1, 2 * R, 2 * R - 1, 2 * R + 1, x, x * x, x * x - 1, x * x * x, x + 1, x - 1,
        (Z(1) << 64) - 1, Z(1) << 64, (Z(1) << 64) + 1, (Z(1) << 128) - 1, Z(1) << 128, (Z(1) << 192) - 1, Z(1) << 192, M / 3, M / 5, M / 15, M / 3 * 2, M ^ ((Z(1) << 128) - 1), M ^ ((Z(1) << 64) - 1), (Z(1) << 255) + 1, R >> 1, R >> 64, R - x, R - x * x};
    if (level >= 1) for (int i = 0; i < 256; i += (level >= 2 ? 1 : 7)) { v.push_back(Z(1) << i); v.push_back((Z(1) << i) - 1); v.push_back(M ^ (Z(1) << i)); }
    if (level >= 1) { const u64 lv[] = {0, 1, ~0ULL, 1ULL << 63}; for (int m = 0; m < 256; m++) { if (level < 2 && m % 5) continue; u64 d[4]; int t = m; for (int i = 0; i < 4; i++) { d[i] = lv[t % 4]; t /= 4; } v.push_back(ref::zfrom(d, 4)); } }
    for (int i = 0; i < 4 + 8 * level; i++) v.push_back(ref::bytesz(ref::shaB(ref::i2osp(3000 + i, 4))));
    uniq(v); return v;
}
template<class T> inline T hfield(int i);
template<> inline Fe hfield<Fe>(int i) { return ref::fromz(ref::bytesz(ref::shaB(ref::i2osp(5000 + i, 4))) * ref::bytesz(ref::shaB(ref::i2osp(6000 + i, 4))) % ref::ZP); }
template<> inline F2 hfield<F2>(int i) { return {hfield<Fe>(2 * i + 100), hfield<Fe>(2 * i + 101)}; }
// a deterministic curve point (full group, usually outside the subgroup)
template<class T> inline ref::Pt<T> curve_point(int i) { for (int k = 0;; k++) { T x = hfield<T>(1000 * i + k), y; if (ref::fsqrt(ref::add(ref::mul(ref::sqr(x), x), ref::Crv<T>::b()), y)) return ref::aff<T>(x, y); } }
inline const Z& cof(Fe*) { return ref::H1(); }
inline const Z& cof(F2*) { return ref::H2(); }
// a point of exact order ell (prime dividing the cofactor), or infinity if the ell-part is trivial
template<class T> inline ref::Pt<T> torsion(unsigned long ell, int seed = 0) {
    Z n = cof((T*)0) * ref::ZR; while (n % ell == 0) n /= ell;
    for (int i = 0; i < 50; i++) { ref::Pt<T> p = ref::smul(curve_point<T>(seed + i), n); if (ref::isinf(p)) continue; for (;;) { ref::Pt<T> q = ref::smul(p, Z(ell)); if (ref::isinf(q)) return ref::norm(p); p = q; } }
    return ref::pinf<T>();
}
struct NamedP1 { std::string n; P1 p; bool sub; };
} // namespace lx
// ---------------- curve traits and point alphabets ----------------
namespace lx {
template<class F> struct GTr;
template<> struct GTr<Fe> { typedef g1 G; typedef fp LF; static const char* nm() { return "G1"; } static P1 gen() { return ref::G1(); } static std::vector<unsigned long> primes() { return {3, 11, 10177, 859267, 52437899}; } static Fe omega() { static const Fe w = [] { Z r = ref::zpow(2, (ref::ZP - 1) / 3, ref::ZP); return ref::fromz(r); }(); return w; } static Fe fint(long k) { return ref::fint(k); } };
template<> struct GTr<F2> { typedef g2 G; typedef fp2 LF; static const char* nm() { return "G2"; } static P2 gen() { return ref::G2(); } static std::vector<unsigned long> primes() { return {13, 23, 2713, 11953, 262069}; } static F2 omega() { return {GTr<Fe>::omega(), ref::fzero()}; } static F2 fint(long k) { return {ref::fint(k), ref::fzero()}; } };
template<class F> struct NP { std::string n; ref::Pt<F> p; bool sub; };
template<class F> inline ref::Pt<F> endo(const ref::Pt<F>& p) { ref::Pt<F> n = ref::norm(p); if (ref::isinf(n)) return n; return ref::aff<F>(ref::mul(n.x, GTr<F>::omega()), n.y); }
// named curve points: level 0 small, 1 medium, 2 large.  The first entry is infinity, the second the generator.
template<class F> inline std::vector<NP<F>> points(int level) {
    typedef ref::Pt<F> P; std::vector<NP<F>> v; P g = GTr<F>::gen(); auto put = [&](const std::string& n, const P& p) { P q = ref::norm(p); for (auto& o : v) if (ref::eq(o.p, q)) return; v.push_back({n, q, ref::insub(q)}); };
    put("O", ref::pinf<F>()); put("G", g); put("-G", ref::neg(g)); put("2G", ref::smul(g, Z(2))); put("-2G", ref::smul(g, Z(-2))); put("3G", ref::smul(g, Z(3))); put("wG", endo<F>(g)); put("w2G", endo<F>(endo<F>(g))); put("-wG", ref::neg(endo<F>(g)));
    P h = ref::smul(g, ref::bytesz(ref::shaB(ref::str("h")))); put("H", h); put("-H", ref::neg(h)); put("wH", endo<F>(h)); put("G/2", ref::smul(g, (ref::ZR + 1) / 2));
    P c = curve_point<F>(0); put("C", c); put("-C", ref::neg(c)); put("wC", endo<F>(c)); put("2C", ref::dblp(c)); put("C+G", ref::add(c, g));
    auto pr = GTr<F>::primes(); for (size_t i = 0; i < pr.size(); i++) { P t = torsion<F>(pr[i], 7 * (int)i); put("T" + std::to_string(pr[i]), t); if (level >= 1 || i < 2) { put("-T" + std::to_string(pr[i]), ref::neg(t)); put("T" + std::to_string(pr[i]) + "+G", ref::add(t, g)); } }
    { P t = torsion<F>(pr[0], 0); F y; if (ref::fsqrt(ref::Crv<F>::b(), y)) { put("x=0", ref::aff<F>(ref::Crv<F>::zero(), y)); put("x=0'", ref::aff<F>(ref::Crv<F>::zero(), ref::neg(y))); } }
    if (level >= 1) { put("xG", ref::smul(g, ref::ZX)); put("x2G", ref::smul(g, ref::ZX * ref::ZX)); put("(r-1)/2G", ref::smul(g, (ref::ZR - 1) / 2)); for (int i = 1; i < 4; i++) { put("C" + std::to_string(i), curve_point<F>(i)); put("rC" + std::to_string(i), ref::smul(curve_point<F>(i), ref::ZR)); }
        // small x-coordinates
        int n = 0; for (long k = 1; n < 4; k++) { F x = GTr<F>::fint(k), y; if (ref::fsqrt(ref::add(ref::mul(ref::sqr(x), x), ref::Crv<F>::b()), y)) { put("x=" + std::to_string(k), ref::aff<F>(x, y)); n++; } } }
    if constexpr (std::is_same_v<F, F2>) if (level >= 1) { // coordinates with a zero component
        auto zx = [](const char* s) { return ref::fromz(Z(s, 16)); };
        F2 r3 = {zx("09f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032"), zx("0c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced")}, ru = {zx("100fca6a493cd9f5ca905c1d4f7d1737991b651d141621b82918a8516e31553366ae29ee53ba1fd7fe5cb394b16c8a79"), r3.b};
        put("y=3", ref::aff<F>(r3, F2{ref::fint(3), ref::fzero()})); put("y=-3", ref::aff<F>(r3, F2{ref::fint(-3), ref::fzero()})); put("y=u", ref::aff<F>(ru, F2{ref::fzero(), ref::FONE})); put("y=-u", ref::aff<F>(ru, F2{ref::fzero(), ref::fint(-1)}));
        int n = 0; for (long k = 1; n < 2; k++) { F2 x = {ref::fzero(), ref::fint(k)}, y; if (ref::fsqrt(ref::add(ref::mul(ref::sqr(x), x), ref::Crv<F2>::b()), y)) { put("x=" + std::to_string(k) + "u", ref::aff<F2>(x, y)); put("x=" + std::to_string(k) + "u'", ref::aff<F2>(x, ref::neg(y))); n++; } } }
    if (level >= 2) for (int i = 4; i < 24; i++) { P t = curve_point<F>(i); put("C" + std::to_string(i), t); put("h" + std::to_string(i) + "G", ref::smul(g, ref::bytesz(ref::shaB(ref::i2osp(i, 2))))); if (i < 8) put("h2C" + std::to_string(i), ref::smul(t, cof((F*)0))); }
    return v;
}
// z-coordinates for Jacobian representatives
template<class F> inline std::vector<F> zreps(int level) { typedef ref::Crv<F> C; std::vector<F> z = {C::one(), ref::neg(C::one()), GTr<F>::fint(2), hfield<F>(77)}; if (level >= 1) { z.push_back(GTr<F>::omega()); z.push_back(hfield<F>(78)); z.push_back(GTr<F>::fint(-3)); } return z; }
template<> inline std::vector<F2> zreps<F2>(int level) { std::vector<F2> z = {ref::F2ONE, ref::neg(ref::F2ONE), {ref::fzero(), ref::FONE}, hfield<F2>(77)}; if (level >= 1) { z.push_back({ref::FONE, ref::FONE}); z.push_back(GTr<F2>::omega()); z.push_back({ref::fint(2), ref::fzero()}); z.push_back(hfield<F2>(78)); z.push_back({ref::raw(1), ref::raw(ref::ZP - 1)}); } else z.push_back({ref::raw(1), ref::raw(ref::ZP - 1)}); return z; }
// z-coordinates whose representation is close to that of one or of zero: single words of one changed, kept or cleared, single words on their own
inline std::vector<Fe> nearfe() {
    std::vector<Fe> v; u64 one[6]; { Fe o = ref::FONE; memcpy(one, &o, 48); }
    auto put = [&](const u64* d) { Z z = ref::zfrom(d, 6); if (z <= 0 || z >= ref::ZP) return; Fe f = ref::raw(z); if (f == ref::FONE) return; for (auto& g : v) if (g == f) return; v.push_back(f); };
    u64 d[6]; for (int i = 0; i < 6; i++) { for (u64 m : {1ULL, 1ULL << 33, 1ULL << 60}) { memcpy(d, one, 48); d[i] ^= m; put(d); } memcpy(d, one, 48); d[i] = 0; put(d); memset(d, 0, 48); d[i] = one[i]; put(d); memset(d, 0, 48); d[i] = 1; put(d); memset(d, 0, 48); d[i] = 1ULL << 60; put(d);
        memcpy(d, one, 48); for (int j = i; j < 6; j++) d[j] = 0; put(d); memcpy(d, one, 48); for (int j = 0; j < i; j++) d[j] = 0; put(d); }
    return v;
}
template<class F> inline std::vector<F> nearz();
template<> inline std::vector<Fe> nearz<Fe>() { return nearfe(); }
template<> inline std::vector<F2> nearz<F2>() { std::vector<F2> v; auto n = nearfe(); v.push_back({ref::fzero(), ref::FONE}); v.push_back({ref::FONE, ref::FONE}); for (auto& f : n) { v.push_back({f, ref::fzero()}); v.push_back({ref::fzero(), f}); v.push_back({ref::FONE, f}); v.push_back({f, ref::FONE}); } return v; }
// representative k of a point; infinity has its own set of representatives
template<class F> inline typename GTr<F>::G rep(const ref::Pt<F>& p, size_t k, const std::vector<F>& zs) {
    typedef typename GTr<F>::G G; typedef ref::Crv<F> C;
    if (ref::isinf(p)) { F x = C::zero(), y = C::zero(); ref::Pt<F> g = GTr<F>::gen(); switch (k % 6) { case 0: y = C::one(); break; case 1: break; case 2: x = y = C::one(); break; case 3: x = hfield<F>(5); y = hfield<F>(6); break; case 4: x = g.x; y = g.y; break; case 5: x = C::one(); break; } return G({L(x), L(y), L(C::zero())}); }
    return J(p, zs[k % zs.size()]);
}
template<class G> inline bool bits(const G& a, const G& b) { return memcmp((const void*)&a, (const void*)&b, sizeof a) == 0; }
} // namespace lx
