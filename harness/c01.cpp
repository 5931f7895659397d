// C01: base-field arithmetic is exact, canonical, alias-safe.
#include "lib.hpp"
using namespace lx;
static std::vector<Fe> A2, A1, A0; static std::vector<Z> EX;
struct Op { const char* n; };
static bool eq(mc::Ctx& c, const char* op, const fp& got, const Fe& want, const Fe& x, const Fe& y) {
    c.op(); if (R(got) == want) return true;
    c.fail(std::string(op) + " wrong: x=" + S(x) + " y=" + S(y) + " got=" + S(got) + " want=" + S(want)); return false;
}
static void binary(mc::Ctx& c, const Fe& x, const Fe& y) {
    Fe sa = ref::add(x, y), ss = ref::sub(x, y), sm = ref::mul(x, y);
    fp a = L(x), b = L(y), t, z;
    eq(c, "add", a.add(b), sa, x, y); t = a; t.addAssign(b); eq(c, "addAssign", t, sa, x, y);
    eq(c, "subtract", a.subtract(b), ss, x, y); t = a; t.subtractAssign(b); eq(c, "subtractAssign", t, ss, x, y);
    eq(c, "multiply", a.multiply(b), sm, x, y); t = a; t.multiplyAssign(b); eq(c, "multiplyAssign", t, sm, x, y);
    // low-level calls, output aliased with either operand
    t = a; B::_add(&t, &t, &b); eq(c, "_add z=x", t, sa, x, y); t = b; B::_add(&t, &a, &t); eq(c, "_add z=y", t, sa, x, y);
    t = a; B::_subtract(&t, &t, &b); eq(c, "_subtract z=x", t, ss, x, y); t = b; B::_subtract(&t, &a, &t); eq(c, "_subtract z=y", t, ss, x, y);
    t = a; B::_multiply(&t, &t, &b); eq(c, "_multiply z=x", t, sm, x, y); t = b; B::_multiply(&t, &a, &t); eq(c, "_multiply z=y", t, sm, x, y);
    if (!(R(a) == x && R(b) == y)) c.fail("operand modified: x=" + S(x) + " y=" + S(y));
    int k = ref::cmp6(x.d, y.d); auto o = a.cmp(b);
    c.check((k < 0) == (o < 0) && (k == 0) == (o == 0) && (k > 0) == (o > 0) && a.equal(b) == (k == 0) && (a == b) == (k == 0) && (a < b) == (k < 0), [&] { return "comparison wrong: x=" + S(x) + " y=" + S(y); });
    c.state(H(sa)); c.state(H(ss)); c.state(H(sm));
}
static void unary(mc::Ctx& c, const Fe& x) {
    fp a = L(x), t; Fe y = x;
    Fe d = ref::dbl(x), n = ref::neg(x), s = ref::sqr(x), i = ref::inv(x);
    eq(c, "dbl", a.dbl(), d, x, y); t = a; t.doubleAssign(); eq(c, "doubleAssign", t, d, x, y); t = a; B::_double(&t, &t); eq(c, "_double z=x", t, d, x, y);
    eq(c, "negate", a.negate(), n, x, y); t = a; B::_negate(&t, &t); eq(c, "_negate z=x", t, n, x, y);
    eq(c, "square", a.square(), s, x, y); t = a; t.squareAssign(); eq(c, "squareAssign", t, s, x, y); t = a; B::_square(&t, &t); eq(c, "_square z=x", t, s, x, y);
    t = a; t.addAssign(t); eq(c, "addAssign self", t, d, x, y); t = a; t.subtractAssign(t); eq(c, "subtractAssign self", t, ref::fzero(), x, y); t = a; t.multiplyAssign(t); eq(c, "multiplyAssign self", t, s, x, y);
    eq(c, "inverse", a.inverse(), i, x, y);
    eq(c, "fromMont", a.fromMont(), ref::raw(ref::toz(x)), x, y);
    eq(c, "toMont", a.toMont(), ref::fromz(ref::rawz(x)), x, y);
    eq(c, "toMont(fromMont)", a.fromMont().toMont(), x, x, y); eq(c, "fromMont(toMont)", a.toMont().fromMont(), x, x, y);
    eq(c, "copy", fp(a), x, x, y);
    // endomorphism coefficient: multiplication by a fixed primitive cube root of one
    fp w = fp::one().phi(); Fe rw = R(w); c.check(!(rw == ref::FONE) && ref::mul(ref::mul(rw, rw), rw) == ref::FONE, "phi(1) is not a primitive cube root of unity");
    eq(c, "phi", a.phi(), ref::mul(x, rw), x, y);
    c.check(a.isZero() == x.isz(), [&] { return "isZero wrong at " + S(x); });
    c.check(a.isOne() == (x == ref::FONE), [&] { return "isOne wrong at " + S(x); });
    c.check(a.isOdd() == bool(x.d[0] & 1) && a.isEven() == !(x.d[0] & 1), [&] { return "isOdd/isEven wrong at " + S(x); });
    c.check(a.isValid(), [&] { return "isValid false for reduced " + S(x); });
    if (!(R(a) == x)) c.fail("operand modified " + S(x));
    c.state(H(i)); c.state(H(n));
}
static void anyraw(mc::Ctx& c, const Z& v) {   // any 384-bit pattern: predicates and shifts that are defined on raw words
    fp a = L(ref::raw(v));
    c.check(a.isValid() == (v < ref::ZP), [&] { return "isValid wrong at " + S(v); });
    for (u64 e : {0ULL, 1ULL}) { fp t = a; t.div2(e); Z w = (v >> 1) + (e ? Z(1) << 383 : Z(0)); c.check(ref::rawz(R(t)) == w, [&] { return "div2 wrong at " + S(v); }); }
    fp t = a; u64 hi = t.mul2(); c.check(ref::rawz(R(t)) + (Z((unsigned long)hi) << 384) == 2 * v, [&] { return "mul2 wrong at " + S(v); });
    c.state(H(v));
}
static void lazy(mc::Ctx& c, const Fe& x, const Fe& y, int k1, int k2, const Fe& u, const Fe& v) {
    // operands built with at most one non-reducing operation each, then multiplied / squared
    auto mk = [&](int k, const Fe& p, const Fe& q, fp& out) -> Z { fp a = L(p), b = L(q); Z za = ref::rawz(p), zb = ref::rawz(q);
        switch (k) { case 0: B::_ladd(&out, &a, &b); return za + zb; case 1: B::_ldouble(&out, &a); return 2 * za;
            case 2: if (za >= zb) { B::_lsubtract(&out, &a, &b); return za - zb; } B::_lsubtract(&out, &b, &a); return zb - za;
            case 3: { fp t; fp m = L(ref::raw(ref::ZP)); B::_ladd(&t, &a, &m); B::_lsubtract(&out, &t, &b); return za + ref::ZP - zb; }
            default: out = a; return za; } };
    fp a, b; Z p = mk(k1, x, y, a), q = mk(k2, u, v, b);
    c.check(ref::rawz(R(a)) == p, [&] { return "non-reducing op wrong, kind " + std::to_string(k1) + " x=" + S(x) + " y=" + S(y) + " got " + S(a); });
    fp r; B::_multiply(&r, &a, &b); Fe want = ref::raw((p * q * ref::ZRINV) % ref::ZP);
    c.check(R(r) == want, [&] { return "multiply of unreduced operands wrong: a=" + S(a) + " b=" + S(b) + " got=" + S(r) + " want=" + S(want); });
    B::_square(&r, &a); want = ref::raw((p * p * ref::ZRINV) % ref::ZP);
    c.check(R(r) == want, [&] { return "square of unreduced operand wrong: a=" + S(a) + " got=" + S(r) + " want=" + S(want); });
    c.state(H(want));
}
static void expo(mc::Ctx& c, const Fe& x, const Z& e) {
    fp a = L(x); Fe want = ref::fpow(x, e); if (e == 0) want = ref::FONE;
    if (e < (Z(1) << 64)) eq(c, "exp<1>", a.exp(W<1>(e)), want, x, ref::raw(e));
    if (e < (Z(1) << 256)) eq(c, "exp<4>", a.exp(W<4>(e)), want, x, ref::raw(e));
    eq(c, "exp<6>", a.exp(W<6>(e)), want, x, ref::raw(e)); c.state(H(want));
}
// register machine: all operation sequences over two registers
static const char* OPN[] = {"r0+=r1", "r0-=r1", "r0*=r1", "r0=2r0", "r0=-r0", "r0=r0^2", "r0=1/r0", "swap", "toMont", "fromMont", "r1=r0+r0*r1"};
static void seq(mc::Ctx& c, const Fe& x, const Fe& y, const std::vector<uint64_t>& ops, size_t o) {
    fp a = L(x), b = L(y); Fe m = x, n = y; std::string tr;
    for (size_t i = o; i < ops.size(); i++) {
        if (c.verbose) tr += std::string(OPN[ops[i]]) + "; ";
        switch (ops[i]) {
            case 0: a.addAssign(b); m = ref::add(m, n); break; case 1: a.subtractAssign(b); m = ref::sub(m, n); break; case 2: a.multiplyAssign(b); m = ref::mul(m, n); break;
            case 3: a.doubleAssign(); m = ref::dbl(m); break; case 4: a = a.negate(); m = ref::neg(m); break; case 5: a.squareAssign(); m = ref::sqr(m); break;
            case 6: a = a.inverse(); m = ref::inv(m); break; case 7: std::swap(a, b); std::swap(m, n); break;
            case 8: a = a.toMont(); m = ref::fromz(ref::rawz(m)); break; case 9: a = a.fromMont(); m = ref::raw(ref::toz(m)); break;
            case 10: b = a.add(a.multiply(b)); n = ref::add(m, ref::mul(m, n)); break;
        }
        c.op(); c.state(mc::mix(H(m), H(n)));
        if (!(R(a) == m) || !(R(b) == n)) { c.fail("sequence diverges from the model after step " + std::to_string(i - o) + " (" + OPN[ops[i]] + ") r0=" + S(x) + " r1=" + S(y) + " got " + S(a) + "," + S(b) + " want " + S(m) + "," + S(n)); return; }
    }
    if (c.verbose) c.note = "start r0=" + S(x) + " r1=" + S(y) + ": " + tr + "-> r0=" + S(m);
}
int main(int argc, char** argv) {
    mc::Explorer E; E.parse(argc, argv); ref::selftest(); bool T = E.thorough();
    for (auto& z : raw_alphabet(2)) A2.push_back(ref::raw(z));
    for (auto& z : raw_alphabet(1)) A1.push_back(ref::raw(z));
    for (auto& z : raw_alphabet(0)) A0.push_back(ref::raw(z));
    std::vector<Z> anyv; for (auto& z : raw_alphabet(T ? 2 : 1, Z(1) << 384)) { anyv.push_back(z); anyv.push_back((Z(1) << 384) - 1 - z); anyv.push_back((z + ref::ZP) % (Z(1) << 384)); }
    uniq(anyv);
    EX = {0, 1, 2, 3, ref::ZP - 1, ref::ZP - 2, ref::ZP, (ref::ZP - 1) / 2, (ref::ZP + 1) / 4, (Z(1) << 64) - 1, Z(1) << 64, Z(1) << 63, (Z(1) << 128) - 1, Z(1) << 255, (Z(1) << 256) - 1, (Z(1) << 384) - 1, Z(1) << 383, Z(1) << 320, ref::ZX, ref::ZR};
    if (T) for (int i = 0; i < 384; i += 3) EX.push_back(Z(1) << i);
    const auto& AP = T ? A2 : A1;
    E.add("pairs", "every ordered pair of structured raw values: add/sub/mul/compare in all forms and alias patterns", {A2.size(), AP.size()}, [&AP](mc::Ctx& c, const mc::Idx& v) { binary(c, A2[v[0]], AP[v[1]]); if (c.verbose) c.note = "x=" + S(A2[v[0]]) + " y=" + S(AP[v[1]]); });
    // sums that land exactly on p-1, p, p+1 and differences 0, +-1
    E.add("carry-boundary", "y = p - x + d and y = x + d, d in -2..2, for every structured x", {A2.size(), 5, 2}, [](mc::Ctx& c, const mc::Idx& v) { Z x = ref::rawz(A2[v[0]]), y = (v[2] ? x : ref::ZP - x) + Z((long)v[1] - 2); binary(c, A2[v[0]], ref::raw(ref::zmod(y, ref::ZP))); if (c.verbose) c.note = "x=" + S(A2[v[0]]) + " y=" + S(ref::zmod(y, ref::ZP)); });
    // sums with every limb all-ones boundary: x + y = 2^(64k) - 1 + d
    E.add("limb-boundary", "y chosen so that x+y or x-y has carries exactly at each limb boundary", {A2.size(), 7, 3, 2}, [](mc::Ctx& c, const mc::Idx& v) { Z x = ref::rawz(A2[v[0]]), t = (Z(1) << (64 * std::min<u64>(v[1], 5) + (v[1] == 6 ? 60 : 0))) + Z((long)v[2] - 1); Z y = v[3] ? t - x : x - t; binary(c, A2[v[0]], ref::raw(ref::zmod(y, ref::ZP))); if (c.verbose) c.note = "x=" + S(x) + " y=" + S(ref::zmod(y, ref::ZP)); });
    E.add("unary", "every structured raw value: double, negate, square, inverse, Montgomery conversion, predicates", {A2.size()}, [](mc::Ctx& c, const mc::Idx& v) { unary(c, A2[v[0]]); if (c.verbose) c.note = "x=" + S(A2[v[0]]); });
    { static std::vector<Fe> NB = {ref::fzero(), ref::FONE, ref::neg(ref::FONE), ref::raw(1), ref::raw(ref::ZP - 1), hfield<Fe>(31), hfield<Fe>(32)}; E.add("near-equal", "pairs of values differing in exactly one bit, in one whole word, or equal in one word only: every operation and comparison", {NB.size(), 384 + 12}, [](mc::Ctx& c, const mc::Idx& v) { Z x = ref::rawz(NB[v[0]]), y = x; if (v[1] < 384) y = x ^ (Z(1) << v[1]); else { int w = (v[1] - 384) % 6; Z m = ((Z(1) << 64) - 1) << (64 * w); y = v[1] < 390 ? Z(x - (x & m)) : Z(x & m); } if (y >= ref::ZP) return; Fe a = ref::raw(x), b = ref::raw(y); binary(c, a, b); binary(c, b, a); unary(c, b); if (c.verbose) c.note = "x=" + S(x) + " y=" + S(y); }); }
    E.add("powers-of-two-inverse", "x = +-k*2^i for all i: iteration counts and shifts of the inverse", {384, 2, T ? 16ull : 4ull}, [](mc::Ctx& c, const mc::Idx& v) { Z x = (Z(1) << v[0]) * Z((long)(2 * v[2] + 1)) % ref::ZP; if (v[1]) x = ref::ZP - x; unary(c, ref::raw(x)); unary(c, ref::fromz(x)); if (c.verbose) c.note = "x=" + S(x); });
    E.add("raw-words", "predicates and one-bit shifts on arbitrary 384-bit patterns", {anyv.size()}, [anyv](mc::Ctx& c, const mc::Idx& v) { anyraw(c, anyv[v[0]]); });
    const auto& AL = T ? A1 : A0; static std::vector<Fe> LP = {ref::raw(0), ref::raw(1), ref::raw(ref::ZP - 1), ref::raw(ref::ZP / 2), ref::FONE, hfield<Fe>(1)};
    E.add("unreduced", "multiply and square of operands produced by one non-reducing add/double/subtract", {5, 5, AL.size(), T ? AL.size() / 4 : AL.size() / 3, LP.size()}, [&AL, T](mc::Ctx& c, const mc::Idx& v) { u64 n = AL.size(); u64 j = (v[3] * (T ? 4 : 3) + v[2]) % n; lazy(c, AL[v[2]], AL[j], v[0], v[1], AL[(v[2] * 7 + 1) % n], LP[v[4]]); });
    E.add("exp", "bases x exponents, 1/4/6-word exponents", {A0.size(), EX.size()}, [](mc::Ctx& c, const mc::Idx& v) { expo(c, A0[v[0]], EX[v[1]]); if (c.verbose) c.note = "x=" + S(A0[v[0]]) + " e=" + S(EX[v[1]]); });
    static std::vector<Fe> SI = {ref::raw(0), ref::raw(1), ref::FONE, ref::raw(ref::ZP - 1), ref::neg(ref::FONE), ref::raw((Z(1) << 320) - 1), hfield<Fe>(3)};
    std::vector<uint64_t> dims = {SI.size(), SI.size()}; for (int i = 0; i < (T ? 5 : 4); i++) dims.push_back(11);
    E.add("sequences", "all operation sequences of a two-register machine", dims, [](mc::Ctx& c, const mc::Idx& v) { seq(c, SI[v[0]], SI[v[1]], v, 2); });
    return E.run();
}
