// C09: curve / subgroup membership, cofactor clearing, endomorphisms.
#include "lib.hpp"
using namespace lx;
template<class F> inline bool on(const F& x, const F& y, const F& z) { if (z.isz()) return true; F z2 = ref::sqr(z), z6 = ref::mul(ref::sqr(z2), z2); return ref::sqr(y) == ref::add(ref::mul(ref::sqr(x), x), ref::mul(ref::Crv<F>::b(), z6)); }
// psi = twist o Frobenius o untwist, computed in Fp12
static P2 psiref(const P2& p) { if (ref::isinf(p)) return p; P2 n = ref::norm(p); Fw wi = ref::winv(), w = ref::wzero(); w.c[1] = ref::FONE; Fw w2 = ref::mul(w, w), w3 = ref::mul(w2, w), wi2 = ref::mul(wi, wi), wi3 = ref::mul(wi2, wi);
    Fw X = ref::mul(ref::frob(ref::mul(ref::emb2(n.x), wi2), 1), w2), Y = ref::mul(ref::frob(ref::mul(ref::emb2(n.y), wi3), 1), w3); F2 x = ref::get2(X, 0), y = ref::get2(Y, 0); if (!(ref::emb2(x) == X) || !(ref::emb2(y) == Y)) throw std::runtime_error("ref: psi left Fp2"); return ref::aff<F2>(x, y); }
static const Fe BETA = [] { Fe w = GTr<Fe>::omega(); P1 g = ref::G1(); // the cube root whose endomorphism is -x^2 on the subgroup (as Bowe's criterion requires)
    P1 t = ref::smul(g, ref::ZX * ref::ZX - 1); /* lambda = x^2-1 satisfies lambda^2+lambda+1 = 0 mod r */ Fe a = ref::norm(t).x; if (ref::mul(w, g.x) == a) return w; Fe w2 = ref::sqr(w); if (!(ref::mul(w2, g.x) == a)) throw std::runtime_error("ref: beta"); return w2; }();
static P1 heff(const P1& p) { return ref::smul(p, ref::HEFF1()); }
static P2 heff(const P2& p) { return ref::smul(p, ref::HEFF2()); }
template<class F> struct MB {
    typedef ref::Pt<F> P; typedef typename GTr<F>::G G; static inline std::vector<NP<F>> V; static inline std::vector<F> ZS; static inline std::vector<P> SM, LN; static inline std::vector<std::array<F, 3>> TR;
    static std::string nm() { return GTr<F>::nm(); }
    static void member(mc::Ctx& c, const P& p, bool sub, const G& a, const std::function<std::string()>& in) { G a0 = a; c.check(a.inCorrectSubgroup() == sub, [&] { return nm() + " inCorrectSubgroup wrong (want " + std::to_string(sub) + ") on " + in(); }); c.check(a.isOnCurve(), [&] { return nm() + " isOnCurve false on " + in(); }); c.check(bits(a, a0), "operand modified"); c.state(H(p)); if (c.verbose) c.note = in(); }
    // all lines of E[ell] (rank 1 or 2), one generator each
    static void lines(unsigned long ell, bool all) { P a = torsion<F>(ell, 0), b = a; if (ref::isinf(a)) throw std::runtime_error("ref: no torsion"); bool rank2 = false; P sa = a;
        for (int s = 1; s < 6 && !rank2; s++) { b = torsion<F>(ell, 40 * s); rank2 = true; if (ell < 20000) { P m = ref::pinf<F>(); for (unsigned long i = 0; i < ell && rank2; i++) { if (ref::eq(m, b)) rank2 = false; m = ref::add(m, a); } } else rank2 = false; }
        P e = endo<F>(a), e2 = endo<F>(e); LN.push_back(a); LN.push_back(ref::norm(b)); LN.push_back(e);
        // eigenlines of the cube-root endomorphism sigma: (sigma - l2) P for the roots l of l^2+l+1 mod ell
        if (ell % 3 == 1) { for (unsigned long l = 2, n = 0; n < 2 && l < ell; l++) if (((unsigned __int128)l * l + l + 1) % ell == 0) { n++; for (P q : {a, b}) { P t = ref::add(endo<F>(q), ref::neg(ref::smul(q, Z(l)))); if (!ref::isinf(t)) { LN.push_back(ref::norm(t)); break; } } } }
        if (all && rank2) { P m = b; for (unsigned long i = 0; i < ell; i++) { LN.push_back(ref::norm(m)); m = ref::add(m, a); } } }
    static void add(mc::Explorer& E, bool T) {
        auto nmF = [](const char* s) { return nm() + "-" + s; }; V = points<F>(2); ZS = zreps<F>(1); size_t K = std::max<size_t>(ZS.size(), 6);
        E.add(nmF("membership"), "every named point in every representative: subgroup and curve tests against multiplication by the order", {V.size(), K}, [](mc::Ctx& c, const mc::Idx& v) { member(c, V[v[0]].p, V[v[0]].sub, rep<F>(V[v[0]].p, v[1], ZS), [&] { return V[v[0]].n + " rep " + std::to_string(v[1]); }); });
        static const std::vector<F> NZ = nearz<F>(); E.add(nmF("near-one-z"), "points in representatives whose z coordinate is close to one or to zero word by word, and the same coordinates with another z", {4, NZ.size()}, [](mc::Ctx& c, const mc::Idx& v) { static const int pick[] = {1, 9, 13, 18}; auto& q = V[pick[v[0]]]; auto in = [&] { return q.n + " z " + S(NZ[v[1]]); }; G a = J(q.p, NZ[v[1]]); member(c, q.p, q.sub, a, in); G r = a.clearCofactor(); c.check(same(r, heff(q.p)), [&] { return nm() + " clearCofactor wrong on " + in(); });
            for (int k = 0; k < 3; k++) { G b = k == 0 ? J(q.p, ref::Crv<F>::one()) : k == 1 ? a : G({L(ref::Crv<F>::zero()), L(ref::Crv<F>::one()), L(NZ[v[1]])}); if (k < 2) b.z = L(k ? NZ[(v[1] + 1) % NZ.size()] : NZ[v[1]]); bool w = on(R(b.x), R(b.y), R(b.z)); c.check(b.isOnCurve() == w, [&] { return nm() + " isOnCurve wrong (want " + std::to_string(w) + ") on " + S(b); }); } });
        // every point of the small torsion subgroups, plus a subgroup point
        auto pr = GTr<F>::primes(); SM.clear(); for (size_t k = 0; k < 2; k++) { P a = torsion<F>(pr[k], 0), b = torsion<F>(pr[k], 40); P x = ref::pinf<F>(); for (unsigned long i = 0; i < pr[k]; i++) { P y = x; for (unsigned long j = 0; j < pr[k]; j++) { SM.push_back(ref::norm(y)); y = ref::add(y, b); } x = ref::add(x, a); } }
        E.add(nmF("small-torsion"), "every point of E[l] for the two smallest primes of the cofactor, alone and shifted by a subgroup point", {SM.size(), 2}, [](mc::Ctx& c, const mc::Idx& v) { P p = SM[v[0]]; bool sub = ref::isinf(p); if (v[1]) p = ref::add(p, ref::smul(GTr<F>::gen(), Z(12345 + (long)v[0]))); member(c, p, sub, rep<F>(p, v[0], ZS), [&] { return "torsion point " + std::to_string(v[0]) + (v[1] ? " + subgroup point" : ""); }); });
        LN.clear(); for (size_t k = 0; k < pr.size(); k++) lines(pr[k], T && pr[k] < 20000);
        E.add(nmF("torsion-lines"), "generators and endomorphism-eigenlines of E[l] for every prime of the cofactor (all lines of the mid-size one in the thorough tier), alone and shifted", {LN.size(), 3}, [](mc::Ctx& c, const mc::Idx& v) { P p = LN[v[0]]; if (v[1] == 1) p = ref::add(p, GTr<F>::gen()); if (v[1] == 2) p = ref::smul(p, Z(2)); member(c, p, false, rep<F>(p, v[0], ZS), [&] { return "line " + std::to_string(v[0]) + " variant " + std::to_string(v[1]); }); });
        E.add(nmF("subgroup"), "multiples 0..N, r-N..r of the generator", {2, T ? 2000ull : 200ull}, [](mc::Ctx& c, const mc::Idx& v) { Z k = (unsigned long)v[1]; if (v[0]) k = ref::ZR - k; P p = ref::norm(ref::smul(GTr<F>::gen(), k)); member(c, p, true, rep<F>(p, v[1], ZS), [&] { return S(k) + "G"; }); });
        E.add(nmF("curve-points"), "the curve points above successive hashed x-coordinates, and their subgroup parts", {T ? 1200ull : 120ull, 3}, [](mc::Ctx& c, const mc::Idx& v) { P p = curve_point<F>(100 + v[0]); bool sub = false; if (v[1] == 1) { p = ref::norm(ref::smul(p, cof((F*)0))); sub = true; } if (v[1] == 2) p = ref::norm(ref::smul(p, ref::ZR)); member(c, p, v[1] == 1, rep<F>(p, v[0], ZS), [&] { return "hashed point " + std::to_string(v[0]) + "." + std::to_string(v[1]); }); });
        // on-curve test on arbitrary triples
        TR.clear(); std::vector<F> Y = {ref::Crv<F>::zero(), ref::Crv<F>::one(), ref::neg(ref::Crv<F>::one()), GTr<F>::fint(2), GTr<F>::fint(-2), ref::Crv<F>::b(), hfield<F>(3), GTr<F>::gen().x, GTr<F>::gen().y, GTr<F>::fint(4), GTr<F>::omega()};
        for (auto& a : Y) for (auto& b : Y) for (auto& d : Y) TR.push_back({a, b, d});
        // points of y^2 = x^3 + b' for other b' and perturbed representatives of curve points
        for (int i = 0; i < 60; i++) for (auto& z : ZS) { F z2 = ref::sqr(z), z3 = ref::mul(z2, z); F x = hfield<F>(300 + i), y; F bb = i % 4 == 0 ? ref::neg(ref::Crv<F>::b()) : i % 4 == 1 ? GTr<F>::fint(i) : i % 4 == 2 ? ref::add(ref::Crv<F>::b(), ref::Crv<F>::one()) : ref::mul(ref::Crv<F>::b(), hfield<F>(9)); if (ref::fsqrt(ref::add(ref::mul(ref::sqr(x), x), bb), y)) TR.push_back({ref::mul(x, z2), ref::mul(y, z3), z}); }
        for (auto& q : V) for (auto& z : ZS) { if (ref::isinf(q.p)) continue; F z2 = ref::sqr(z), X = ref::mul(q.p.x, z2), Yc = ref::mul(q.p.y, ref::mul(z2, z)), one = ref::Crv<F>::one(); for (int m = 0; m < 12; m++) { F a = X, b = Yc, d = z; switch (m) { case 0: break; case 1: a = ref::add(a, one); break; case 2: b = ref::add(b, one); break; case 3: d = ref::add(d, one); break; case 4: b = ref::neg(b); break; case 5: d = ref::neg(d); break; case 6: a = ref::mul(a, GTr<F>::omega()); break; case 7: std::swap(a, b); break; case 8: d = ref::Crv<F>::zero(); break; case 9: a = ref::neg(a); break; case 10: d = ref::mul(d, GTr<F>::omega()); break; case 11: a = ref::raw_bump(a); break; } TR.push_back({a, b, d}); } }
        E.add(nmF("on-curve"), "all coordinate triples over an alphabet, points of other curves, and every single-coordinate perturbation of named points", {TR.size()}, [](mc::Ctx& c, const mc::Idx& v) { auto& t = TR[v[0]]; G a({L(t[0]), L(t[1]), L(t[2])}); bool w = on(t[0], t[1], t[2]); c.check(a.isOnCurve() == w, [&] { return nm() + " isOnCurve wrong (want " + std::to_string(w) + ") on " + S(a); }); c.state(H(a)); if (c.verbose) c.note = S(a); });
        E.add(nmF("clear-cofactor"), "every named point and torsion point in every representative", {V.size() + SM.size() + 30, 3}, [](mc::Ctx& c, const mc::Idx& v) { size_t i = v[0]; P p = i < V.size() ? V[i].p : i < V.size() + SM.size() ? SM[i - V.size()] : curve_point<F>(50 + i); G a = rep<F>(p, i + v[1], ZS), a0 = a; P w = heff(p); G r = a.clearCofactor(); auto in = [&] { return "point " + std::to_string(i) + " rep " + std::to_string(i + v[1]); }; c.check(same(r, w), [&] { return nm() + " clearCofactor wrong on " + in(); }); c.check(ref::insub(R(r)) && r.inCorrectSubgroup(), [&] { return nm() + " clearCofactor left the subgroup on " + in(); }); c.check(bits(a, a0), "operand modified"); c.state(H(w)); if (c.verbose) c.note = in(); });
    }
};
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); ref::frobtab(); MB<Fe>::add(E, T); MB<F2>::add(E, T);
    E.add("G1-endomorphism", "(beta x, y) on every named point in every representative", {MB<Fe>::V.size(), 7}, [](mc::Ctx& c, const mc::Idx& v) { auto& q = MB<Fe>::V[v[0]]; g1 a = rep<Fe>(q.p, v[1], MB<Fe>::ZS), a0 = a; P1 w = q.p; if (!ref::isinf(w)) w.x = ref::mul(w.x, BETA); auto in = [&] { return q.n + " rep " + std::to_string(v[1]); }; c.check(same(a.glvEndomorphism(), w), [&] { return "glvEndomorphism wrong on " + in(); }); if (q.sub) c.check(same(a.glvEndomorphism(), ref::smul(q.p, ref::ZX * ref::ZX - 1)), [&] { return "glvEndomorphism eigenvalue wrong on " + in(); });
        fp x = L(q.p.x); c.check(R(x.phi()) == ref::mul(q.p.x, BETA), "phi wrong"); c.check(bits(a, a0), "operand modified"); c.state(H(w)); if (c.verbose) c.note = in(); });
    E.add("G2-endomorphism", "psi and its powers (0..40) on every named point in every representative", {MB<F2>::V.size(), 9}, [T](mc::Ctx& c, const mc::Idx& v) { auto& q = MB<F2>::V[v[0]]; g2 a = rep<F2>(q.p, v[1], MB<F2>::ZS), a0 = a; P2 w = psiref(q.p); auto in = [&] { return q.n + " rep " + std::to_string(v[1]); }; c.check(same(a.psi(), w), [&] { return "psi wrong on " + in(); }); if (q.sub) c.check(same(a.psi(), ref::smul(q.p, -ref::ZX)), [&] { return "psi eigenvalue wrong on " + in(); });
        P2 m = q.p; for (int k = 0; k <= (T ? 120 : 40); k++) { c.check(same(a.frobeniusMap(k), m), [&] { return "frobeniusMap(" + std::to_string(k) + ") wrong on " + in(); }); m = psiref(m); } c.check(bits(a, a0), "operand modified"); c.state(H(w)); if (c.verbose) c.note = in(); });
    return E.run();
}
