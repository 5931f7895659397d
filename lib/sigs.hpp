// shared by C17-C19: candidate keys and signatures with their classification in the model
#pragma once
#include "lib.hpp"
namespace lx {
inline Bytes content(size_t n, int kind) { Bytes b(n, kind == 1 ? 0xff : 0); if (kind == 2) for (size_t i = 0; i < n; i += 32) { Bytes h = ref::shaB(ref::i2osp(i + 131, 4)); for (size_t j = 0; j < 32 && i + j < n; j++) b[i + j] = h[j]; } if (kind == 3) for (size_t i = 0; i < n; i++) b[i] = (u8)(i + 1); return b; }
// A candidate point: concrete coordinates handed to the library, and what the model says about it
template<class F> struct Cand { std::string n; typename GTr<F>::G g; bool oncurve, sub; ref::Pt<F> p; };
template<class F> inline Cand<F> good(const std::string& n, const ref::Pt<F>& p, size_t k = 0) { static const auto zs = zreps<F>(1); return {n + (k ? " rep " + std::to_string(k) : ""), rep<F>(p, k, zs), true, ref::insub(p), ref::norm(p)}; }
template<class F> inline Cand<F> sub(const std::string& n, const ref::Pt<F>& p, size_t k = 0) { static const auto zs = zreps<F>(1); return {n + (k ? " rep " + std::to_string(k) : ""), rep<F>(p, k, zs), true, true, ref::norm(p)}; }
// arbitrary coordinates; classification computed
template<class F> inline Cand<F> any(const std::string& n, const F& x, const F& y, const F& z) { typedef typename GTr<F>::G G; Cand<F> c; c.n = n; c.g = G({L(x), L(y), L(z)}); c.p = ref::fromjac<F>(x, y, z); c.oncurve = ref::oncurve(c.p); c.sub = c.oncurve && ref::insub(c.p); return c; }
// variations of a subgroup point s: representatives, negation, endomorphism images, small-order shifts, off-curve perturbations, twisted curves, infinities
template<class F> inline std::vector<Cand<F>> variants(const std::string& n, const ref::Pt<F>& s, int level) {
    typedef ref::Crv<F> C; typedef ref::Pt<F> P; std::vector<Cand<F>> v; auto zs = zreps<F>(1); P g = GTr<F>::gen();
    for (size_t k = 0; k < zs.size(); k++) v.push_back(sub<F>(n, s, k));
    v.push_back(sub<F>("-" + n, ref::neg(s))); v.push_back(sub<F>(n + "+G", ref::add(s, g))); v.push_back(sub<F>("2" + n, ref::dblp(s))); v.push_back(sub<F>("w" + n, endo<F>(s), 1)); v.push_back(sub<F>("w2" + n, endo<F>(endo<F>(s)), 2)); v.push_back(sub<F>("G", g)); v.push_back(sub<F>("-G", ref::neg(g)));
    for (size_t k = 0; k < 6; k++) v.push_back(sub<F>("O", ref::pinf<F>(), k));
    auto pr = GTr<F>::primes(); for (size_t i = 0; i < pr.size() && (level || i < 3); i++) { P t = torsion<F>(pr[i], 7 * (int)i); std::string tn = "T" + std::to_string(pr[i]); v.push_back(good<F>(n + "+" + tn, ref::add(s, t), i % zs.size())); v.push_back(good<F>(n + "-" + tn, ref::add(s, ref::neg(t)))); v.push_back(good<F>(tn, t)); }
    { P c = curve_point<F>(3); v.push_back(good<F>("C", c)); v.push_back(good<F>(n + "+rC", ref::add(s, ref::smul(c, ref::ZR)), 2)); v.push_back(good<F>("rC", ref::smul(c, ref::ZR), 3)); }
    P a = ref::norm(s); if (!ref::isinf(a)) {
        F one = C::one(); v.push_back(any<F>(n + " y+1", a.x, ref::add(a.y, one), one)); v.push_back(any<F>(n + " x+1", ref::add(a.x, one), a.y, one)); v.push_back(any<F>(n + " z=2 unscaled", a.x, a.y, GTr<F>::fint(2))); v.push_back(any<F>(n + " swapped", a.y, a.x, one)); v.push_back(any<F>(n + " x=0", C::zero(), a.y, one)); v.push_back(any<F>(n + " y=0", a.x, C::zero(), one)); v.push_back(any<F>(n + " raw y+1", a.x, ref::raw_bump(a.y), one)); v.push_back(any<F>(n + " raw x+1", ref::raw_bump(a.x), a.y, one));
        // isomorphic point on another curve y^2 = x^3 + u^6 b
        F u = GTr<F>::fint(3), u2 = ref::sqr(u); v.push_back(any<F>(n + " on twist u^6", ref::mul(a.x, u2), ref::mul(a.y, ref::mul(u2, u)), one)); }
    v.push_back(any<F>("(0,0)", C::zero(), C::zero(), C::one())); v.push_back(any<F>("(1,1)", C::one(), C::one(), C::one())); v.push_back(any<F>("(0,1)", C::zero(), C::one(), C::one())); v.push_back(any<F>("random", hfield<F>(901), hfield<F>(902), hfield<F>(903)));
    for (int i = 0; i < (level ? 12 : 2); i++) v.push_back(any<F>("random" + std::to_string(i), hfield<F>(910 + i), hfield<F>(940 + i), C::one()));
    return v;
}
inline const P2& hmsg(const Bytes& m) { static thread_local std::unordered_map<std::string, P2> t; std::string k(m.begin(), m.end()); auto i = t.find(k); if (i == t.end()) { if (t.size() > 20000) t.clear(); i = t.emplace(k, ref::hash2(m, ref::str("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"))).first; } return i->second; }
inline Bytes affle(const P1& p0) { if (ref::isinf(p0)) return Bytes(96, 0); P1 p = ref::norm(p0); Bytes x = ref::zbytes(ref::toz(p.x), 48), y = ref::zbytes(ref::toz(p.y), 48); std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end()); return ref::cat({x, y}); }
inline const P2& hpop(const P1& pk) { static thread_local std::unordered_map<std::string, P2> t; Bytes m = affle(pk); std::string k(m.begin(), m.end()); auto i = t.find(k); if (i == t.end()) { if (t.size() > 20000) t.clear(); i = t.emplace(k, ref::hash2(m, ref::str("BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"))).first; } return i->second; }
inline P1 pkof(const Z& a) { return ref::norm(ref::smul(ref::G1(), a)); }
inline P2 sg(const Z& a, const P2& h) { return ref::norm(ref::smul(h, a)); }
}
