// Compiled twice: PFX=nat_ against the assembly back end, PFX=port_ against the portable one (see shim.hpp).
#include <vector>
#include <string>
#include <functional>
#include <bls12-381/bls12-381.hpp>
#include "../harness/shim.hpp"
using namespace bls12_381;
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace {
fp F(const uint64_t* p) { std::array<uint64_t, 6> d; for (int i = 0; i < 6; i++) d[i] = p[i]; return fp(d); }
void put(uint64_t* z, const fp& a) { for (int i = 0; i < 6; i++) z[i] = a.d[i]; }
void call2(int op, fp* z, const fp* x, const fp* y) { switch (op) { case B_ADD: _add(z, x, y); break; case B_SUB: _subtract(z, x, y); break; case B_MUL: _multiply(z, x, y); break; case B_LADD: _ladd(z, x, y); break; case B_LSUB: _lsubtract(z, x, y); break; } }
void bin(int op, int al, uint64_t* z, const uint64_t* x, const uint64_t* y) {
    fp a = F(x), b = F(y), r; switch (al) { case 0: call2(op, &r, &a, &b); break; case 1: r = a; call2(op, &r, &r, &b); break; case 2: r = b; call2(op, &r, &a, &r); break; case 3: call2(op, &r, &a, &a); break; default: r = a; call2(op, &r, &r, &r); } put(z, r);
}
void un(int op, int al, uint64_t* z, const uint64_t* x) {
    fp a = F(x), r; fp* o = &r; const fp* i = &a; if (al) { r = a; i = &r; }
    switch (op) { case U_DBL: _double(o, i); break; case U_NEG: _negate(o, i); break; case U_SQR: _square(o, i); break; case U_LDBL: _ldouble(o, i); break; case U_INV: r = i->inverse(); break; case U_SQRT: { fp s = fp::zero(); bool k = i->sqrt(s); r = k ? s : fp::zero(); break; } } put(z, r);
}
template<class T, size_t... I> void tup(const T& t, uint64_t* o, std::index_sequence<I...>) { ((o[I] = std::get<I>(t)), ...); }
template<class T> void T_(const T& t, uint64_t* o) { tup(t, o, std::make_index_sequence<std::tuple_size_v<T>>()); }
void carry(int op, const uint64_t* i, uint64_t* o) {
    switch (op) {
        case K_ADD64: T_(Add64(i[0], i[1], i[2]), o); break; case K_SUB64: T_(Sub64(i[0], i[1], i[2]), o); break; case K_MUL64: T_(Mul64(i[0], i[1]), o); break;
        case K_MADD: T_(madd(i[0], i[1], i[2], i[3], i[4]), o); break; case K_MADD0: o[0] = madd0(i[0], i[1], i[2]); break; case K_MADD1: T_(madd1(i[0], i[1], i[2]), o); break;
        case K_MADD2: T_(madd2(i[0], i[1], i[2], i[3]), o); break; case K_MADD2S: T_(madd2s(i[0], i[1], i[2], i[3], i[4]), o); break; case K_MADD1S: T_(madd1s(i[0], i[1], i[2], i[3]), o); break;
        case K_MADD2SB: T_(madd2sb(i[0], i[1], i[2], i[3]), o); break; case K_MADD1SB: T_(madd1sb(i[0], i[1], i[2]), o); break; case K_MADD3: T_(madd3(i[0], i[1], i[2], i[3], i[4]), o); break;
    }
}
// a deterministic supply of values, identical in both builds because it uses no library code
struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; } };
fp fe(Rng& r) {
    uint64_t k = r.next() % 8; std::array<uint64_t, 6> d; for (auto& w : d) w = r.next(); d[5] %= 0x1a0111ea397fe69aULL;
    if (k == 0) d.fill(0); if (k == 1) { d.fill(0); d[0] = 1; } if (k == 2) { d = {0xb9feffffffffaaaaULL, 0x1eabfffeb153ffffULL, 0x6730d2a0f6b0f624ULL, 0x64774b84f38512bfULL, 0x4b1ba7b6434bacd7ULL, 0x1a0111ea397fe69aULL}; }
    if (k == 3) for (int i = 0; i < 5; i++) d[i] = ~0ULL; return fp(d);
}
fp2 fe2(Rng& r) { fp a = fe(r), b = fe(r); return fp2({a, b}); }
fp6 fe6(Rng& r) { fp2 a = fe2(r), b = fe2(r), c = fe2(r); return fp6({a, b, c}); }
fp12 fe12(Rng& r) { fp6 a = fe6(r), b = fe6(r); return fp12({a, b}); }
std::array<uint64_t, 4> sc(Rng& r) { std::array<uint64_t, 4> s; uint64_t k = r.next() % 6; for (auto& w : s) w = r.next(); if (k == 0) s.fill(0); if (k == 1) s.fill(~0ULL); if (k == 2) s = {0xffffffff00000000ULL, 0x53bda402fffe5bfeULL, 0x3339d80809a1d805ULL, 0x73eda753299d7d48ULL}; if (k == 3) { s.fill(0); s[0] = r.next() % 9; } return s; }
struct Out { std::vector<uint8_t> b; template<size_t N> void operator()(const std::array<uint8_t, N>& a) { b.insert(b.end(), a.begin(), a.end()); } void w(uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((uint8_t)(v >> (8 * i))); } };
size_t high(int op, uint64_t sel, uint8_t* out, size_t cap) {
    Rng r{sel * 0x9e3779b97f4a7c15ULL + 0x1234567 + op}; for (int i = 0; i < 4; i++) r.next(); Out o; const auto raw = from_mont::no;
    switch (op) {
        case H_FP2: { fp2 a = fe2(r), b = fe2(r), s; o(a.multiply(b).toBytesBE(raw)); o(a.square().toBytesBE(raw)); o(a.inverse().toBytesBE(raw)); o(a.add(b).toBytesBE(raw)); o(a.subtract(b).toBytesBE(raw)); o(a.mulByNonResidue().toBytesBE(raw)); o(a.mulByB().toBytesBE(raw)); bool q = a.sqrt(s); o.w(q); if (q) o(s.toBytesBE(raw)); break; }
        case H_FP6: { fp6 a = fe6(r), b = fe6(r); o(a.multiply(b).toBytesBE(raw)); o(a.square().toBytesBE(raw)); o(a.inverse().toBytesBE(raw)); o(a.frobeniusMap(1).toBytesBE(raw)); fp2 c = fe2(r), d = fe2(r); o(a.mulBy01(c, d).toBytesBE(raw)); o(a.mulBy1(c).toBytesBE(raw)); break; }
        case H_FP12: { fp12 a = fe12(r), b = fe12(r); o(a.multiply(b).toBytesBE(raw)); o(a.square().toBytesBE(raw)); o(a.inverse().toBytesBE(raw)); o(a.frobeniusMap(sel % 3).toBytesBE(raw)); fp2 c = fe2(r), d = fe2(r), e = fe2(r); a.mulBy014Assign(c, d, e); o(a.toBytesBE(raw)); o(b.cyclotomicSquare().toBytesBE(raw)); break; }
        case H_G1: { g1 p = g1::one().scale(sc(r)), q = g1::one().scale(sc(r)); o(p.toJacobianBytesBE(raw)); o(p.add(q).toJacobianBytesBE(raw)); o(p.dbl().affine().toAffineBytesBE()); o(p.add(q).affine().toCompressedBytesBE()); o.w(p.inCorrectSubgroup()); o(p.clearCofactor().toJacobianBytesBE(raw)); break; }
        case H_G2: { g2 p = g2::one().scale(sc(r)), q = g2::one().scale(sc(r)); o(p.toJacobianBytesBE(raw)); o(p.add(q).toJacobianBytesBE(raw)); o(p.dbl().affine().toAffineBytesBE()); o(p.add(q).affine().toCompressedBytesBE()); o.w(p.inCorrectSubgroup()); o(p.clearCofactor().toJacobianBytesBE(raw)); o(p.psi().toJacobianBytesBE(raw)); break; }
        case H_MAP: { fp u = fe(r); o(g1::mapToCurve(u).toJacobianBytesBE(raw)); fp2 v = fe2(r); o(g2::mapToCurve(v).toJacobianBytesBE(raw)); std::vector<uint8_t> m(sel % 70, (uint8_t)sel); o(fromMessage(m, "TAG").toJacobianBytesBE(raw)); break; }
        case H_PAIR: { std::vector<std::tuple<g1, g2>> v; for (uint64_t i = 0; i < 1 + sel % 3; i++) pairing::add_pair(v, g1::one().scale(sc(r)), g2::one().scale(sc(r))); o(pairing::calculate(v).toBytesBE(raw)); break; }
        case H_SIGN: { std::vector<uint8_t> seed(32 + sel % 40, (uint8_t)(sel * 7)), m(sel % 130, (uint8_t)(sel + 1)); auto sk = secret_key(seed); g1 pk = public_key(sk); g2 s = sign(sk, m); o(sk_to_bytes(sk)); o(pk.toCompressedBytesBE()); o(s.toJacobianBytesBE(raw)); o.w(verify(pk, m, s)); o(pop_prove(sk).toJacobianBytesBE(raw)); o(sk_to_bytes(derive_child_sk_unhardened(sk, (uint32_t)sel))); o(derive_child_g1_unhardened(pk, (uint32_t)sel).toJacobianBytesBE(raw)); m.push_back(0); o.w(verify(pk, m, s)); break; }
        case H_SUM: { std::vector<g1> p; std::vector<g2> q; std::vector<std::array<uint64_t, 4>> k; for (uint64_t i = 0; i < sel % 40; i++) { auto a = sc(r); p.push_back(g1::one().scale(std::array<uint64_t, 1>{i + 1})); q.push_back(g2::one().scale(std::array<uint64_t, 1>{2 * i + 1})); k.push_back(a); } o(g1::weightedSum(p, k).toJacobianBytesBE(raw)); o(g2::weightedSum(q, k).toJacobianBytesBE(raw)); break; }
        case H_DIV: { std::array<uint64_t, 8> a; for (auto& w : a) { w = r.next(); uint64_t k = r.next() % 5; if (k == 0) w = 0; if (k == 1) w = ~0ULL; } o(fp::modPrime(a).toBytesBE(raw)); auto x = sc(r), y = sc(r); auto m = scalar::multiply<10, 4, 4>(x, y); for (auto w : m) o.w(w); x[3] >>= 2; y[3] >>= 2; auto s = scalar::add<4, 4, 4>(x, y); for (auto w : s) o.w(w); break; }
    }
    size_t n = o.b.size() < cap ? o.b.size() : cap; memcpy(out, o.b.data(), n); return n;
}
}
#define STR2(a) #a
#define STR(a) STR2(a)
extern const Backend CAT(PFX, backend);
const Backend CAT(PFX, backend) = {STR(PFX), bin, un, carry, high};
