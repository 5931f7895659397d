// C04: extension towers implement the exact algebra; value and in-place forms agree.
#include "lib.hpp"
using namespace lx;
template<class X> static bool eqw(mc::Ctx& c, const std::string& op, const X& got, const Fw& want, const std::function<std::string()>& in) { c.op(); if (R(got) == want) return true; c.fail(op + " wrong on " + in() + " want " + S(want) + " got " + S(R(got))); return false; }
static bool eq2(mc::Ctx& c, const char* op, const fp2& got, const F2& want, const std::function<std::string()>& in) { c.op(); if (R(got) == want) return true; c.fail(std::string("fp2 ") + op + " wrong on " + in() + " want " + S(want) + " got " + S(got)); return false; }
static std::vector<F2> E2; static std::vector<Fe> C1; static std::vector<Fw> E6, E6s, E12, E12s, CYC;
static void bin2(mc::Ctx& c, const F2& x, const F2& y) {
    fp2 a = L(x), b = L(y), t; auto in = [&] { return S(x) + "," + S(y); };
    eq2(c, "add", a.add(b), ref::add(x, y), in); t = a; t.addAssign(b); eq2(c, "addAssign", t, ref::add(x, y), in);
    eq2(c, "subtract", a.subtract(b), ref::sub(x, y), in); t = a; t.subtractAssign(b); eq2(c, "subtractAssign", t, ref::sub(x, y), in);
    F2 m = ref::mul(x, y); eq2(c, "multiply", a.multiply(b), m, in); t = a; t.multiplyAssign(b); eq2(c, "multiplyAssign", t, m, in);
    eq2(c, "mulByFq", a.mulByFq(b.c0), ref::mulf(x, y.a), in); eq2(c, "mulByFq", a.mulByFq(b.c1), ref::mulf(x, y.b), in);
    c.check(a.equal(b) == (x == y), "fp2 equal wrong"); c.check(R(a) == x && R(b) == y, "fp2 operand modified"); c.state(H(m));
}
static void un2(mc::Ctx& c, const F2& x) {
    fp2 a = L(x), t; auto in = [&] { return S(x); };
    eq2(c, "negate", a.negate(), ref::neg(x), in); eq2(c, "dbl", a.dbl(), ref::dbl(x), in); t = a; t.doubleAssign(); eq2(c, "doubleAssign", t, ref::dbl(x), in);
    eq2(c, "square", a.square(), ref::sqr(x), in); t = a; t.squareAssign(); eq2(c, "squareAssign", t, ref::sqr(x), in); t = a; t.multiplyAssign(t); eq2(c, "multiplyAssign self", t, ref::sqr(x), in);
    t = a; t.addAssign(t); eq2(c, "addAssign self", t, ref::dbl(x), in); t = a; t.subtractAssign(t); eq2(c, "subtractAssign self", t, ref::f2zero(), in);
    eq2(c, "inverse", a.inverse(), x.isz() ? x : ref::inv(x), in); eq2(c, "conjugate", a.conjugate(), ref::conj(x), in);
    eq2(c, "mulByNonResidue", a.mulByNonResidue(), ref::mul(x, F2{ref::FONE, ref::FONE}), in); eq2(c, "mulByB", a.mulByB(), ref::mul(x, ref::Crv<F2>::b()), in);
    for (u64 k : {0ULL, 1ULL, 2ULL, 3ULL, 6ULL, 7ULL, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 32) + 1}) { F2 w = k & 1 ? ref::conj(x) : x; eq2(c, "frobeniusMap", a.frobeniusMap(k), w, in); t = a; t.frobeniusMapAssign(k); eq2(c, "frobeniusMapAssign", t, w, in); }
    c.check(a.isZero() == x.isz() && a.isOne() == (x == ref::F2ONE), "fp2 isZero/isOne wrong"); c.check(R(a) == x, "fp2 operand modified"); c.state(H(ref::sqr(x)));
}
static std::vector<Z> exps() { std::vector<Z> v = {0, 1, 2, 3, 5, ref::ZX, ref::ZP, ref::ZP - 2, (ref::ZP - 1) / 2, (ref::ZP - 3) / 4, ref::ZR, (Z(1) << 64) - 1, Z(1) << 64, (Z(1) << 63) + 1, (Z(1) << 128) - 1, Z(1) << 255, (Z(1) << 384) - 1, Z(1) << 383}; return v; }
static Fw wpow0(const Fw& x, const Z& e) { return e == 0 ? ref::wone() : ref::wpow(x, e); }
template<class T> static T LT(const Fw& w);
template<> fp6 LT<fp6>(const Fw& w) { return L6(w); }
template<> fp12 LT<fp12>(const Fw& w) { return L12(w); }
template<class T> static void binw(mc::Ctx& c, const char* nm, const Fw& x, const Fw& y) {
    T a = LT<T>(x), b = LT<T>(y), t; std::function<std::string()> in = [&] { return std::string(nm) + " " + S(x) + "," + S(y); };
    Fw s = ref::add(x, y), d = ref::sub(x, y), m = ref::mul(x, y);
    eqw(c, "add", a.add(b), s, in); t = a; t.addAssign(b); eqw(c, "addAssign", t, s, in); eqw(c, "subtract", a.subtract(b), d, in); t = a; t.subtractAssign(b); eqw(c, "subtractAssign", t, d, in);
    eqw(c, "multiply", a.multiply(b), m, in); t = a; t.multiplyAssign(b); eqw(c, "multiplyAssign", t, m, in); c.check(a.equal(b) == (x == y), "equal wrong"); c.check(R(a) == x && R(b) == y, "operand modified"); c.state(H(m));
}
template<class T> static void unw(mc::Ctx& c, const char* nm, const Fw& x) {
    T a = LT<T>(x), t; std::function<std::string()> in = [&] { return std::string(nm) + " " + S(x); }; bool z = x == ref::wzero();
    Fw n = ref::neg(x), d = ref::add(x, x), q = ref::sqr(x);
    eqw(c, "negate", a.negate(), n, in); eqw(c, "dbl", a.dbl(), d, in); t = a; t.doubleAssign(); eqw(c, "doubleAssign", t, d, in); eqw(c, "square", a.square(), q, in); t = a; t.squareAssign(); eqw(c, "squareAssign", t, q, in);
    t = a; t.multiplyAssign(t); eqw(c, "multiplyAssign self", t, q, in); t = a; t.addAssign(t); eqw(c, "addAssign self", t, d, in); t = a; t.subtractAssign(t); eqw(c, "subtractAssign self", t, ref::wzero(), in);
    eqw(c, "inverse", a.inverse(), z ? x : ref::inv(x), in); c.check(a.isZero() == z && a.isOne() == (x == ref::wone()), "isZero/isOne wrong"); c.check(R(a) == x, "operand modified"); c.state(H(q));
}
template<class T> static void frobw(mc::Ctx& c, const char* nm, const Fw& x, u64 k) {
    T a = LT<T>(x), t = a; Fw w = ref::frob(x, k); std::function<std::string()> in = [&] { return std::string(nm) + " power " + std::to_string(k) + " " + S(x); };
    eqw(c, "frobeniusMap", a.frobeniusMap(k), w, in); t.frobeniusMapAssign(k); eqw(c, "frobeniusMapAssign", t, w, in); c.check(R(a) == x, "operand modified"); c.state(H(w));
}
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); ref::frobtab(); const Fe O = ref::FONE, Zr = ref::fzero();
    C1 = {Zr, O, ref::neg(O), ref::raw(1), ref::raw(ref::ZP - 1), ref::raw((Z(1) << 380) - 1), ref::raw(ref::ZP / 2), ref::raw(ref::ZP - (Z(1) << 320)), hfield<Fe>(1), hfield<Fe>(2), ref::raw((Z(1) << 320) - 1), ref::fint(2)};
    if (T) for (auto& z : raw_alphabet(0)) C1.push_back(ref::raw(z));
    for (auto& a : C1) for (auto& b : C1) E2.push_back({a, b});
    static std::vector<F2> E2b; for (size_t i = 0; i < 12; i++) for (size_t j = 0; j < 12; j++) E2b.push_back({C1[i], C1[j]});
    E.add("fp2-pairs", "all ordered pairs of elements with both coordinates from a boundary alphabet", {E2.size(), E2b.size()}, [](mc::Ctx& c, const mc::Idx& v) { bin2(c, E2[v[0]], E2b[v[1]]); if (c.verbose) c.note = S(E2[v[0]]) + " , " + S(E2b[v[1]]); });
    static std::vector<F2> E2u = E2; for (auto& z : raw_alphabet(T ? 2 : 1)) { E2u.push_back({ref::raw(z), hfield<Fe>(7)}); E2u.push_back({hfield<Fe>(8), ref::raw(z)}); E2u.push_back({ref::raw(z), ref::raw(z)}); E2u.push_back({ref::raw(z), ref::raw(ref::zmod(-z, ref::ZP))}); }
    E.add("fp2-unary", "every such element and boundary values in either coordinate", {E2u.size()}, [](mc::Ctx& c, const mc::Idx& v) { un2(c, E2u[v[0]]); if (c.verbose) c.note = S(E2u[v[0]]); });
    static std::vector<Z> EX = exps();
    E.add("fp2-exp", "exponents of 1, 4 and 6 words", {E2b.size(), EX.size()}, [](mc::Ctx& c, const mc::Idx& v) { F2 x = E2b[v[0]]; Z e = EX[v[1]]; F2 w = e == 0 ? ref::F2ONE : ref::fpow(x, e); auto in = [&] { return S(x) + "^" + S(e); }; fp2 a = L(x); if (e < (Z(1) << 64)) eq2(c, "exp<1>", a.exp(W<1>(e)), w, in); if (e < (Z(1) << 256)) eq2(c, "exp<4>", a.exp(W<4>(e)), w, in); eq2(c, "exp<6>", a.exp(W<6>(e)), w, in); c.state(H(w)); });
    // fp6: coordinates from an 8-letter alphabet; fp12: all 3^6 zero/one/dense coordinate patterns (two dense fillings)
    std::vector<F2> K = {{Zr, Zr}, {O, Zr}, {Zr, O}, {ref::neg(O), ref::raw(ref::ZP - 1)}, {hfield<Fe>(11), hfield<Fe>(12)}, {ref::raw(ref::ZP - 1), ref::raw((Z(1) << 380) - 1)}, {hfield<Fe>(13), Zr}};
    for (auto& a : K) for (auto& b : K) for (auto& d : K) { Fw w = ref::wzero(); ref::put2(w, a, 0); ref::put2(w, b, 2); ref::put2(w, d, 4); E6.push_back(w); }
    for (int i = 0; i < 27; i++) { Fw w = ref::wzero(); int t = i; for (int k = 0; k < 3; k++) { if (t % 3 == 1) ref::put2(w, ref::F2ONE, 2 * k); if (t % 3 == 2) ref::put2(w, hfield<F2>(20 + k), 2 * k); t /= 3; } E6s.push_back(w); } for (int i = 0; i < 6; i++) E6s.push_back(E6[(i * 61 + 17) % E6.size()]);
    for (int i = 0; i < 729; i++) { Fw w = ref::wzero(); int t = i; for (int k = 0; k < 6; k++) { if (t % 3 == 1) ref::put2(w, ref::F2ONE, k); if (t % 3 == 2) ref::put2(w, hfield<F2>(40 + k), k); t /= 3; } E12.push_back(w); }
    for (int i = 0; i < 64; i++) { Fw w = ref::wzero(); for (int k = 0; k < 6; k++) if (i >> k & 1) ref::put2(w, K[(i + k) % 3 == 0 ? 5 : 3], k); E12.push_back(w); }
    for (int i = 0; i < 64; i++) { Fw w = ref::wzero(); for (int k = 0; k < 6; k++) if (i >> k & 1) ref::put2(w, hfield<F2>(60 + k), k); E12s.push_back(w); }
    E12s.push_back(ref::wone()); E12s.push_back(ref::neg(ref::wone()));
    const auto& P12 = T ? E12 : E12s;
    E.add("fp6-pairs", "all ordered pairs of sextic elements over a coordinate alphabet", {E6.size(), T ? E6.size() : E6s.size()}, [T](mc::Ctx& c, const mc::Idx& v) { const Fw& y = T ? E6[v[1]] : E6s[v[1]]; binw<fp6>(c, "fp6", E6[v[0]], y); if (c.verbose) c.note = S(E6[v[0]]) + " , " + S(y); });
    E.add("fp6-unary", "every such element", {E6.size()}, [](mc::Ctx& c, const mc::Idx& v) { const Fw& x = E6[v[0]]; unw<fp6>(c, "fp6", x); fp6 a = L6(x); std::function<std::string()> in = [&] { return S(x); }; Fw vv = ref::wzero(); vv.c[2] = ref::FONE; eqw(c, "fp6 mulByNonResidue", a.mulByNonResidue(), ref::mul(x, vv), in); });
    E.add("fp6-sparse", "multiplication by sparse elements and by the base field: every element x sparse operands", {E6.size(), K.size(), K.size()}, [K](mc::Ctx& c, const mc::Idx& v) { const Fw& x = E6[v[0]]; F2 p = K[v[1]], q = K[v[2]]; fp6 a = L6(x), t = a; std::function<std::string()> in = [&] { return S(x) + " by " + S(p) + "," + S(q); };
        Fw w = ref::wzero(); ref::put2(w, p, 0); ref::put2(w, q, 2); Fw m = ref::mul(x, w); eqw(c, "mulBy01", a.mulBy01(L(p), L(q)), m, in); t.mulBy01Assign(L(p), L(q)); eqw(c, "mulBy01Assign", t, m, in);
        w = ref::wzero(); ref::put2(w, q, 2); eqw(c, "mulBy1", a.mulBy1(L(q)), ref::mul(x, w), in); eqw(c, "mulByBaseField", a.mulByBaseField(L(p)), ref::mul(x, ref::emb2(p)), in); c.state(H(m)); });
    E.add("fp12-pairs", "all zero/one/dense coordinate patterns against each pattern: add, subtract, multiply in both forms", {E12.size(), P12.size()}, [&P12](mc::Ctx& c, const mc::Idx& v) { binw<fp12>(c, "fp12", E12[v[0]], P12[v[1]]); if (c.verbose) c.note = S(E12[v[0]]) + " , " + S(P12[v[1]]); });
    E.add("fp12-unary", "every pattern: square, inverse, conjugate, negate, double, norm of fp4 square", {E12.size()}, [](mc::Ctx& c, const mc::Idx& v) { const Fw& x = E12[v[0]]; unw<fp12>(c, "fp12", x); std::function<std::string()> in = [&] { return S(x); }; eqw(c, "fp12 conjugate", L12(x).conjugate(), ref::frob(x, 6), in);
        F2 a = ref::get2(x, 0), b = ref::get2(x, 3); auto [r0, r1] = fp12::fp4Square(L(a), L(b)); F2 nr = {ref::FONE, ref::FONE}; eq2(c, "fp4Square.0", r0, ref::add(ref::sqr(a), ref::mul(ref::sqr(b), nr)), in); eq2(c, "fp4Square.1", r1, ref::dbl(ref::mul(a, b)), in); });
    E.add("fp12-sparse", "line multiplication mulBy014: every pattern x sparse operands", {E12.size(), 4, 4, 4}, [K](mc::Ctx& c, const mc::Idx& v) { const Fw& x = E12[v[0]]; const int id[] = {0, 1, 3, 4}; F2 p = K[id[v[1]]], q = K[id[v[2]]], r = K[id[v[3]]]; fp12 t = L12(x); Fw w = ref::wzero(); ref::put2(w, p, 0); ref::put2(w, q, 2); ref::put2(w, r, 3); Fw m = ref::mul(x, w); t.mulBy014Assign(L(p), L(q), L(r)); std::function<std::string()> in = [&] { return S(x) + " by " + S(p) + "," + S(q) + "," + S(r); }; eqw(c, "mulBy014Assign", t, m, in); c.state(H(m)); });
    static std::vector<u64> PW; for (u64 k = 0; k <= (T ? 200 : 40); k++) PW.push_back(k); for (u64 k = 0; k < 12; k++) { PW.push_back(~0ULL - k); PW.push_back((1ULL << 63) + k); PW.push_back((1ULL << 32) + k); }
    E.add("frobenius-fp6", "every power 0..40 (200) and powers near 2^32, 2^63, 2^64 on every dense/sparse pattern", {E6s.size(), PW.size()}, [](mc::Ctx& c, const mc::Idx& v) { frobw<fp6>(c, "fp6", E6s[v[0]], PW[v[1]]); if (c.verbose) c.note = "power " + std::to_string(PW[v[1]]) + " of " + S(E6s[v[0]]); });
    E.add("frobenius-fp12", "same for the twelfth-degree field", {E12s.size(), PW.size()}, [](mc::Ctx& c, const mc::Idx& v) { frobw<fp12>(c, "fp12", E12s[v[0]], PW[v[1]]); if (c.verbose) c.note = "power " + std::to_string(PW[v[1]]) + " of " + S(E12s[v[0]]); });
    E.add("exp-fp6-fp12", "exponents of 1, 4 and 6 words on sextic and twelfth-degree elements", {T ? 60ull : 12ull, EX.size()}, [](mc::Ctx& c, const mc::Idx& v) { Z e = EX[v[1]]; std::function<std::string()> in = [&] { return std::to_string(v[0]) + "^" + S(e); };
        Fw x = E6s[(v[0] * 5 + 2) % E6s.size()], w = wpow0(x, e); fp6 a = L6(x); if (e < (Z(1) << 64)) eqw(c, "fp6 exp<1>", a.exp(W<1>(e)), w, in); if (e < (Z(1) << 256)) eqw(c, "fp6 exp<4>", a.exp(W<4>(e)), w, in); eqw(c, "fp6 exp<6>", a.exp(W<6>(e)), w, in);
        x = E12s[(v[0] * 11 + 3) % E12s.size()]; w = wpow0(x, e); fp12 b = L12(x); if (e < (Z(1) << 64)) eqw(c, "fp12 exp<1>", b.exp(W<1>(e)), w, in); if (e < (Z(1) << 256)) eqw(c, "fp12 exp<4>", b.exp(W<4>(e)), w, in); eqw(c, "fp12 exp<6>", b.exp(W<6>(e)), w, in); c.state(H(w)); });
    // cyclotomic subgroup elements: images of every invertible pattern under (p^6-1)(p^2+1)
    for (size_t i = 0; i < E12.size(); i++) { if (!T && i % 6 && i > 40) continue; const Fw& x = E12[i]; if (x == ref::wzero()) continue; Fw y = ref::mul(ref::frob(x, 6), ref::inv(x)); CYC.push_back(ref::mul(ref::frob(y, 2), y)); }
    CYC.push_back(ref::wone());
    E.add("cyclotomic", "cyclotomic squaring and exponentiation against the generic ones on images of every pattern in the cyclotomic subgroup", {CYC.size(), 7}, [](mc::Ctx& c, const mc::Idx& v) { const Fw& x = CYC[v[0]]; fp12 a = L12(x), t = a; std::function<std::string()> in = [&] { return S(x); }; 
        if (v[1] == 0) { Fw q = ref::sqr(x); eqw(c, "cyclotomicSquare", a.cyclotomicSquare(), q, in); t.cyclotomicSquareAssign(); eqw(c, "cyclotomicSquareAssign", t, q, in); eqw(c, "conjugate is inverse", a.conjugate().multiply(a), ref::wone(), in); c.state(H(q)); return; }
        const Z ee[] = {0, 0, 1, 2, ref::ZX, ref::ZR, (Z(1) << 64) - 1}; Z e = ee[v[1]]; Fw w = wpow0(x, e); if (e < (Z(1) << 64)) eqw(c, "cyclotomicExp<1>", a.cyclotomicExp(W<1>(e)), w, in); eqw(c, "cyclotomicExp<4>", a.cyclotomicExp(W<4>(e)), w, in); eqw(c, "exp", a.exp(W<4>(e)), w, in); c.state(H(w)); });
    // predicates and comparison on elements that differ in a single word
    E.add("near-equal", "zero, one, minus one and a dense element of each field against the same element with one word of one coordinate changed (one bit or whole word), or with everything but one coordinate cleared: comparison in both orders, predicates", {4, 72, 5}, [](mc::Ctx& c, const mc::Idx& v) { const Fw bs[] = {ref::wzero(), ref::wone(), ref::neg(ref::wone()), E12s[63]}; Fw x = bs[v[0]], y = x; int k = v[1] / 6, w = v[1] % 6; u64& d = y.c[k].d[w]; switch (v[2]) { case 0: d ^= 1; break; case 1: d ^= 1ULL << 40; break; case 2: d ^= 1ULL << 58; break; case 3: d = 0; break; case 4: if (w) return; for (int i = 0; i < 12; i++) if (i != k) y.c[i] = ref::fzero(); break; }
        if (ref::cmp6(y.c[k].d, ref::P) >= 0) return; bool e = x == y; auto in = [&] { return S(x) + " and " + S(y); }; if (c.verbose) c.note = in(); fp12 a = L12(x), b = L12(y); c.op(); c.check(a.equal(b) == e && b.equal(a) == e && b.equal(b), [&] { return "fp12 equal wrong on " + in(); }); c.check(b.isOne() == (y == ref::wone()) && b.isZero() == (y == ref::wzero()), [&] { return "fp12 isOne/isZero wrong on " + in(); });
        for (int h = 0; h < 2; h++) { fp6 p = h ? a.c1 : a.c0, q = h ? b.c1 : b.c0; bool e6 = bits(p, q), one = q.c0.isOne() && bits(q.c1, fp2::zero()) && bits(q.c2, fp2::zero()); c.check(p.equal(q) == e6 && q.equal(p) == e6 && q.isZero() == bits(q, fp6::zero()) && q.isOne() == one, [&] { return "fp6 comparison wrong on " + in(); });
            for (int g = 0; g < 3; g++) { fp2 r = g == 0 ? p.c0 : g == 1 ? p.c1 : p.c2, s = g == 0 ? q.c0 : g == 1 ? q.c1 : q.c2; bool e2 = R(r) == R(s); c.check(r.equal(s) == e2 && s.equal(r) == e2 && s.isZero() == R(s).isz() && s.isOne() == (R(s) == ref::F2ONE), [&] { return "fp2 comparison wrong on " + in(); }); } } c.state(mc::mix(mc::mix(v[0], v[1]), v[2])); });
    // register machine over the twelfth-degree field
    static std::vector<Fw> SI = {E12s[63], E12s[21], CYC[20], ref::wone(), E12[400]};
    std::vector<uint64_t> dims = {SI.size(), SI.size()}; for (int i = 0; i < (T ? 4 : 3); i++) dims.push_back(10);
    E.add("fp12-sequences", "all operation sequences of a two-register machine", dims, [](mc::Ctx& c, const mc::Idx& v) { Fw m = SI[v[0]], n = SI[v[1]]; fp12 a = L12(m), b = L12(n); for (size_t i = 2; i < v.size(); i++) { switch (v[i]) { case 0: a.addAssign(b); m = ref::add(m, n); break; case 1: a.subtractAssign(b); m = ref::sub(m, n); break; case 2: a.multiplyAssign(b); m = ref::mul(m, n); break; case 3: a.squareAssign(); m = ref::sqr(m); break; case 4: a = a.inverse(); if (!(m == ref::wzero())) m = ref::inv(m); break; case 5: a = a.conjugate(); m = ref::frob(m, 6); break; case 6: std::swap(a, b); std::swap(m, n); break; case 7: a.frobeniusMapAssign(i); m = ref::frob(m, i); break; case 8: a = a.negate(); m = ref::neg(m); break; case 9: b = a.frobeniusMap(1).multiply(b); n = ref::mul(ref::frob(m, 1), n); break; }
        c.op(); c.state(mc::mix(H(m), H(n))); if (!(R(a) == m) || !(R(b) == n)) { c.fail("fp12 sequence diverges after step " + std::to_string(i - 1) + " op " + std::to_string(v[i])); return; } } });
    return E.run();
}
