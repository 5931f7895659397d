// C05: square roots, quadratic character, sign and lexicographic ordering.
#include "lib.hpp"
using namespace lx;
static void one(mc::Ctx& c, const Fe& x) {
    fp a = L(x), r, t = a; bool sq = ref::is_square(x); auto in = [&] { return "fp value " + S(ref::toz(x)); };
    bool ok = a.sqrt(r); c.check(ok == sq, [&] { return in() + ": sqrt existence reported " + std::to_string(ok) + " want " + std::to_string(sq); });
    if (ok) c.check(canon(r) && ref::sqr(R(r)) == x, [&] { return in() + ": root does not square back"; });
    ok = t.sqrt(t); c.check(ok == sq && (!ok || ref::sqr(R(t)) == x), [&] { return in() + ": in-place sqrt wrong"; });
    c.check(a.isQuadraticNonResidue() == !sq, [&] { return in() + ": isQuadraticNonResidue wrong"; });
    c.check(a.sign() == !ref::odd(x), [&] { return in() + ": sign wrong"; });
    bool l = ref::lex_largest(x), ln = ref::lex_largest(ref::neg(x)); c.check(a.isLexicographicallyLargest() == l, [&] { return in() + ": isLexicographicallyLargest wrong"; }); c.check(a.negate().isLexicographicallyLargest() == ln && (x.isz() ? !l && !ln : l != ln), [&] { return in() + ": ordering of the negation wrong"; });
    c.check(R(a) == x, "operand modified"); c.state(H(x)); if (c.verbose) c.note = in() + (sq ? " square" : " non-square");
}
static void lex(mc::Ctx& c, const Z& v) { Fe x = ref::fromz(v); fp a = L(x); auto in = [&] { return "fp value " + S(v); }; bool l = v > (ref::ZP - 1) / 2;
    c.check(a.isLexicographicallyLargest() == l, [&] { return in() + ": isLexicographicallyLargest wrong"; }); c.check(a.negate().isLexicographicallyLargest() == (v != 0 && !l), [&] { return in() + ": negation's ordering wrong"; });
    fp2 p({a, fp::zero()}), q({L(hfield<Fe>(3)), a}), s({fp::zero(), a}); c.check(p.isLexicographicallyLargest() == l, [&] { return in() + ": fp2 (v,0) ordering wrong"; }); bool w = v == 0 ? ref::lex_largest(hfield<Fe>(3)) : l; c.check(q.isLexicographicallyLargest() == w && s.isLexicographicallyLargest() == l, [&] { return in() + ": fp2 (c,v) ordering wrong"; });
    c.check(a.sign() == !mpz_odd_p(v.get_mpz_t()), [&] { return in() + ": sign wrong"; }); c.state(H(x)); if (c.verbose) c.note = in(); }
static void two(mc::Ctx& c, const F2& x) {
    fp2 a = L(x), r, t = a; bool sq = ref::is_square(x); auto in = [&] { return "fp2 raw " + S(x); };
    bool ok = a.sqrt(r); c.check(ok == sq, [&] { return in() + ": sqrt existence reported " + std::to_string(ok); }); if (ok) c.check(canon(r) && ref::sqr(R(r)) == x, [&] { return in() + ": root does not square back"; });
    ok = t.sqrt(t); c.check(ok == sq && (!ok || ref::sqr(R(t)) == x), [&] { return in() + ": in-place sqrt wrong"; });
    c.check(a.isQuadraticNonResidue() == !sq, [&] { return in() + ": isQuadraticNonResidue wrong"; }); c.check(a.sign() == !ref::odd_sgn0(x), [&] { return in() + ": sign wrong"; });
    bool l = ref::lex_largest(x), ln = ref::lex_largest(ref::neg(x)); c.check(a.isLexicographicallyLargest() == l && a.negate().isLexicographicallyLargest() == ln && (x.isz() ? !l && !ln : l != ln), [&] { return in() + ": ordering wrong"; });
    c.check(R(a) == x, "operand modified"); c.state(H(x)); if (c.verbose) c.note = in() + (sq ? " square" : " non-square");
}
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough(); static std::vector<Fe> V; static std::vector<Z> LX; static std::vector<F2> Q;
    for (auto& z : raw_alphabet(T ? 2 : 1)) { V.push_back(ref::raw(z)); V.push_back(ref::fromz(z)); V.push_back(ref::sqr(ref::raw(z))); V.push_back(ref::neg(ref::sqr(ref::raw(z)))); }
    E.add("fp-boundary", "boundary representations, boundary values, their squares and negated squares", {V.size()}, [](mc::Ctx& c, const mc::Idx& v) { one(c, V[v[0]]); });
    E.add("fp-small", "every value 0..N and p-1-0..p-1-N", {2, T ? 60000ull : 4000ull}, [](mc::Ctx& c, const mc::Idx& v) { Z z = (unsigned long)v[1]; one(c, ref::fromz(v[0] ? ref::ZP - 1 - z : z)); });
    u64 h[6]; ref::zto((ref::ZP - 1) / 2, h, 6);
    for (int m = 0; m < (T ? 117649 : 15625); m++) { u64 d[6]; int t = m, b = T ? 7 : 5; for (int i = 0; i < 6; i++) { u64 q[7] = {h[i], h[i] - 1, h[i] + 1, 0, ~0ULL, h[i] ^ (1ULL << 63), h[i] ^ (1ULL << 32)}; d[i] = q[t % b]; t /= b; } Z z = ref::zfrom(d, 6); if (z < ref::ZP) LX.push_back(z); }
    for (int i = -300; i <= 300; i++) { LX.push_back((ref::ZP - 1) / 2 + i); if (i >= 0) { LX.push_back(i); LX.push_back(ref::ZP - 1 - i); } } for (int i = 0; i < 381; i++) { LX.push_back(Z(1) << i); Z z = (ref::ZP - 1) / 2 ^ (Z(1) << i); if (z < ref::ZP) LX.push_back(z); } uniq(LX);
    E.add("lexicographic-boundary", "every combination of words equal to, next to or extreme relative to those of (p-1)/2, for the base field and both coordinates of the extension", {LX.size()}, [](mc::Ctx& c, const mc::Idx& v) { lex(c, LX[v[0]]); });
    std::vector<Fe> C = {ref::fzero(), ref::FONE, ref::neg(ref::FONE), ref::fint(2), ref::fint(-2), ref::fint(3), ref::raw(1), ref::raw(ref::ZP - 1), ref::raw((Z(1) << 380) - 1), ref::fromz((ref::ZP - 1) / 2), ref::fromz((ref::ZP + 1) / 2), hfield<Fe>(1), hfield<Fe>(2), hfield<Fe>(3), ref::fromz(ref::ZP - 3), ref::fromz(4)};
    if (T) for (auto& z : raw_alphabet(0)) { C.push_back(ref::raw(z)); C.push_back(ref::fromz(z)); }
    for (auto& a : C) for (auto& b : C) { F2 x{a, b}; Q.push_back(x); if (!T || Q.size() < 4000) { Q.push_back(ref::sqr(x)); Q.push_back(ref::neg(ref::sqr(x))); Q.push_back(ref::mul(ref::sqr(x), F2{ref::FONE, ref::FONE})); Q.push_back(ref::inv(ref::sqr(x))); } }
    for (auto& z : raw_alphabet(1)) { Q.push_back({ref::raw(z), ref::fzero()}); Q.push_back({ref::fzero(), ref::raw(z)}); Q.push_back({ref::raw(z), ref::raw(z)}); Q.push_back({ref::raw(z), ref::neg(ref::raw(z))}); Q.push_back(ref::sqr(F2{ref::raw(z), hfield<Fe>(9)})); }
    E.add("fp2", "all pairs from a coordinate alphabet, their squares, negated squares, non-residue multiples and inverses; purely real and purely imaginary elements", {Q.size()}, [](mc::Ctx& c, const mc::Idx& v) { two(c, Q[v[0]]); });
    E.add("fp2-small", "every element with both coordinates in -k..k", {T ? 161ull : 41ull, T ? 161ull : 41ull}, [T](mc::Ctx& c, const mc::Idx& v) { long k = T ? 80 : 20; two(c, {ref::fint((long)v[0] - k), ref::fint((long)v[1] - k)}); });
    return E.run();
}
